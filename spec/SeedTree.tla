------------------------------- MODULE SeedTree ------------------------------
(***************************************************************************)
(* Seed sequences as a tree.  A sequence has a key (its path) and a count  *)
(* of the children it has spawned so far; a rebuilt or pickled sequence    *)
(* is a second reference to the same node that counts on by itself         *)
(* ("line").  Within a line no key is ever given out twice.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ids, MaxKids, Depth, MaxLen
VARIABLES node, born, lines, hist, last
vars == << node, born, lines, hist, last >>

None == [live |-> FALSE, key |-> << >>, n |-> 0, line |-> 0]
Init == /\ node = [i \in Ids |-> IF i = 1 THEN [None EXCEPT !.live = TRUE, !.line = 1] ELSE None]
        /\ born = {<< 1, << >> >>} /\ lines = 1 /\ hist = << >> /\ last = << "init" >>
Did(op) == hist' = Append(hist, op) /\ last' = op

Kids(i, k) == { Append(node[i].key, node[i].n + m) : m \in 0..(k - 1) }
\* k children; the first is kept under j
Spawn(i, j, k) ==
  /\ node[i].live /\ i # j /\ Len(node[i].key) < MaxLen
  /\ node' = [node EXCEPT ![i].n = @ + k,
                          ![j] = IF k = 0 THEN @ ELSE [live |-> TRUE, key |-> Append(node[i].key, node[i].n), n |-> 0, line |-> node[i].line]]
  /\ born' = born \cup { << node[i].line, key >> : key \in Kids(i, k) }
  /\ UNCHANGED lines /\ Did(<< "spawn", i, j, k >>)
\* a second reference, by pickling, copying or rebuilding from the recorded state
Copy(i, j, how) ==
  /\ node[i].live /\ i # j
  /\ node' = [node EXCEPT ![j] = [node[i] EXCEPT !.line = lines + 1]]
  /\ lines' = lines + 1 /\ UNCHANGED born /\ Did(<< how, i, j >>)
Generate(i, n, bits) == node[i].live /\ UNCHANGED << node, born, lines >> /\ Did(<< "gen", i, n, bits >>)
View(i) == node[i].live /\ UNCHANGED << node, born, lines >> /\ Did(<< "view", i >>)

Next == \/ \E i, j \in Ids, k \in 0..MaxKids : Spawn(i, j, k)
        \/ \E i, j \in Ids, how \in {"pickle", "copy", "deepcopy", "rebuild"} : Copy(i, j, how)
        \/ \E i \in Ids : View(i) \/ \E n \in {1, 5}, b \in {32, 64} : Generate(i, n, b)
Spec == Init /\ [][Next]_vars

\* no key is given out twice in a line
NeverTwice == [][last'[1] = "spawn" =>
                   \A key \in { Append(node[last'[2]].key, node[last'[2]].n + m) : m \in 0..(last'[4] - 1) } :
                      << node[last'[2]].line, key >> \notin born]_vars
OnlyForward == [][\A i \in Ids : node'[i].line = node[i].line /\ node'[i].key = node[i].key => node'[i].n >= node[i].n]_vars
Known == \A i \in Ids : node[i].live => (node[i].line > 1 \/ << 1, node[i].key >> \in born)

EmitWalk == Len(hist) < Depth \/ PrintT(<< "WALK", ToJson(hist) >>)
Bounded == Len(hist) < Depth
VView == << node, born, lines >>
=============================================================================
