-------------------------------- MODULE Lock ---------------------------------
(***************************************************************************)
(* One bit generator shared by several threads.  A call takes the lock     *)
(* once for each block of words it draws (only draws with several          *)
(* parameter sets have more than one block); a word is drawn by reading    *)
(* the position, computing and writing it back, which is not atomic.  A    *)
(* call may fail before, between or inside its blocks.                     *)
(* Guarded = FALSE is the machine without a lock: the invariants must then *)
(* fail (the check demands it, see harness/props.py).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Calls, MaxCalls, Depth, Guarded, Log
ASSUME Calls \subseteq Seq(Nat)

VARIABLES lock, cursor, pc, prog, tmp, done, hist, walk
vars == << lock, cursor, pc, prog, tmp, done, hist, walk >>

Init == /\ lock = 0 /\ cursor = 0
        /\ pc = [t \in Threads |-> "idle"] /\ prog = [t \in Threads |-> << >>]
        /\ tmp = [t \in Threads |-> 0] /\ done = [t \in Threads |-> 0]
        /\ hist = << >> /\ walk = << >>
Did(a) == walk' = IF Log THEN Append(walk, a) ELSE walk

CallsA == { <<0>>, <<2>>, <<1, 1>> }
CallsB == { <<0>>, <<1>>, <<3>>, <<1, 2>> }
CallsC == { <<1>>, <<2>> }
CallsD == { <<0>>, <<1>>, <<3>>, <<1, 1>>, <<2>> }

\* a thread enters a call that draws the blocks p (numbers of words)
Begin(t, p) == /\ pc[t] = "idle" /\ done[t] < MaxCalls
               /\ pc' = [pc EXCEPT ![t] = "out"] /\ prog' = [prog EXCEPT ![t] = p]
               /\ UNCHANGED << lock, cursor, tmp, done, hist >> /\ Did(<< "begin", t, p >>)
Acquire(t) == /\ pc[t] = "out" /\ prog[t] # << >> /\ (Guarded => lock = 0)
              /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "in"]
              /\ UNCHANGED << cursor, prog, tmp, done, hist >> /\ Did(<< "acq", t >>)
Load(t) == /\ pc[t] = "in" /\ prog[t][1] > 0
           /\ tmp' = [tmp EXCEPT ![t] = cursor] /\ pc' = [pc EXCEPT ![t] = "loaded"]
           /\ UNCHANGED << lock, cursor, prog, done, hist >> /\ Did(<< "word", t >>)
Store(t) == /\ pc[t] = "loaded"
            /\ cursor' = tmp[t] + 1
            /\ hist' = Append(hist, << t, done[t], Len(prog[t]), tmp[t] >>)
            /\ prog' = [prog EXCEPT ![t][1] = @ - 1] /\ pc' = [pc EXCEPT ![t] = "in"]
            /\ UNCHANGED << lock, tmp, done >> /\ Did(<< "step", t >>)
Release(t) == /\ pc[t] = "in" /\ prog[t][1] = 0
              /\ lock' = (IF lock = t THEN 0 ELSE lock) /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ pc' = [pc EXCEPT ![t] = "out"]
              /\ UNCHANGED << cursor, tmp, done, hist >> /\ Did(<< "rel", t >>)
End(t) == /\ pc[t] = "out" /\ prog[t] = << >>
          /\ pc' = [pc EXCEPT ![t] = "idle"] /\ done' = [done EXCEPT ![t] = @ + 1]
          /\ UNCHANGED << lock, cursor, prog, tmp, hist >> /\ Did(<< "end", t >>)
\* a failure: the lock is given back if it is held, nothing else is drawn
Fail(t) == /\ pc[t] \in {"out", "in"}
           /\ lock' = (IF lock = t THEN 0 ELSE lock) /\ prog' = [prog EXCEPT ![t] = << >>] /\ pc' = [pc EXCEPT ![t] = "out"]
           /\ prog[t] # << >>
           /\ UNCHANGED << cursor, tmp, done, hist >> /\ Did(<< "fail", t >>)

AllDone == \A t \in Threads : pc[t] = "idle" /\ done[t] = MaxCalls
Step(t) == (\E p \in Calls : Begin(t, p)) \/ Acquire(t) \/ Load(t) \/ Store(t) \/ Release(t) \/ End(t) \/ Fail(t)
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Live(t) == Acquire(t) \/ Load(t) \/ Store(t) \/ Release(t) \/ End(t)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A t \in Threads : SF_vars(Acquire(t)) /\ WF_vars(Load(t) \/ Store(t) \/ Release(t) \/ End(t))

\* every word is given out once, in order, and none is skipped
Once == cursor = Len(hist) /\ \A i \in 1..Len(hist) : hist[i][4] = i - 1
\* the words of a block follow each other
SameBlock(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3]
Contiguous == \A i, j \in 1..Len(hist) : i < j /\ SameBlock(hist[i], hist[j]) => \A k \in i..j : SameBlock(hist[i], hist[k])
\* the lock is held exactly while some thread is inside
FreeWhenNobody == (lock = 0) <=> ~\E t \in Threads : pc[t] \in {"in", "loaded"}
Exclusive == Cardinality({ t \in Threads : pc[t] \in {"in", "loaded"} }) <= 1
\* a call that has begun ends, whatever the others do (failures included)
Ends == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")

EmitWalk == Len(walk) < Depth \/ PrintT(<< "WALK", ToJson(walk) >>)
Bounded == Len(walk) < Depth
=============================================================================
