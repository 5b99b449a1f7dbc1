------------------------------- MODULE BitGen --------------------------------
(***************************************************************************)
(* The abstract machine behind every bit generator object.  A stream is a  *)
(* sequence of native words produced in blocks of B; an object is a        *)
(* position in a stream and, on 64-bit engines, possibly one kept half     *)
(* word.  The machine says what every public operation does to positions   *)
(* and halves, for several objects and saved states at once.  Its          *)
(* behaviours (all transitions of the state graph, and random walks) are   *)
(* replayed on the real generators; StreamTrace checks the words.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS B,        \* words per block
          Width,    \* native words per 64-bit draw
          RawWidth, \* native words per raw draw
          Keep,     \* a 32-bit draw keeps the other half of its word
          Objs,     \* object identifiers
          Slots,    \* identifiers of saved states
          Handles,  \* identifiers of generators, interfaces, ... wrapped around an object
          Ops,      \* the operations in use
          Depth     \* length of generated walks

VARIABLES obj,      \* Objs -> [pos, half, live]
          slot,     \* Slots -> same or None
          hand,     \* Handles -> the object underneath, 0 when there is none
          last,     \* the last operation, with its arguments
          hist
vars == << obj, slot, hand, last, hist >>
View == << obj, slot, hand >>

None == [pos |-> 0, half |-> FALSE, live |-> FALSE]
New == [pos |-> B, half |-> FALSE, live |-> TRUE]
Init == /\ obj = [i \in Objs |-> IF i = 1 THEN New ELSE None]
        /\ slot = [i \in Slots |-> None]
        /\ hand = [h \in Handles |-> 0]
        /\ last = << "init" >> /\ hist = << >>

\* consuming n native words
Take(x, n) == [x EXCEPT !.pos = ((x.pos + n - 1) % B) + 1]
Drop(x) == [x EXCEPT !.half = FALSE]
N32(x) == IF ~Keep THEN Take(x, 1)
          ELSE IF x.half THEN Drop(x) ELSE [Take(x, 1) EXCEPT !.half = TRUE]
N64(x) == Take(x, Width)

Did(op) == last' = op /\ hist' = Append(hist, op)
Live(i) == obj[i].live
Step(i, x, op) == Live(i) /\ obj' = [obj EXCEPT ![i] = x] /\ UNCHANGED << slot, hand >> /\ Did(op)

DrawAs(i, o, a) ==
           \/ "n32" \in Ops /\ Step(i, N32(obj[i]), << o \o "n32", a >>)
           \/ "n64" \in Ops /\ Step(i, N64(obj[i]), << o \o "n64", a >>)
           \/ "dbl" \in Ops /\ Step(i, N64(obj[i]), << o \o "dbl", a >>)
           \/ "raw" \in Ops /\ Step(i, Take(obj[i], RawWidth), << o \o "raw", a >>)
Draw(i) == DrawAs(i, "", i)
\* a generator or an interface wrapped around an object has no stream of its own
Wrap(i, h) == "wrap" \in Ops /\ Live(i) /\ hand' = [hand EXCEPT ![h] = i] /\ UNCHANGED << obj, slot >>
              /\ Did(<< "wrap", i, h >>)
Via(h) == "wrap" \in Ops /\ hand[h] # 0 /\ DrawAs(hand[h], "via-", h)
\* several words at once
Bulk(i) == "bulk" \in Ops /\ \E n \in {0, 2, B + 1} : Step(i, Take(obj[i], n * Width), << "bulk", i, n >>)
\* skipping d words; d = 0, within the block, to its end, over it
Advance(i) == "adv" \in Ops /\ \E d \in {0, 1, B - 1, B, B + 1} :
                 Step(i, Drop(Take(obj[i], d)), << "adv", i, d >>)
\* jumps empty the block or keep the position, depending on the engine; both look empty from here
Jump(i) == "jump" \in Ops /\ Step(i, [obj[i] EXCEPT !.pos = B, !.half = FALSE], << "jump", i >>)
Reseed(i) == "seed" \in Ops /\ Step(i, New, << "seed", i >>)
Refused(i) == "bad" \in Ops /\ Step(i, obj[i], << "bad", i >>)
Get(i) == "get" \in Ops /\ Step(i, obj[i], << "get", i >>)

\* from one object to another (possibly itself)
Into(i, j, x, op) == Live(i) /\ i # j /\ obj' = [obj EXCEPT ![j] = x] /\ UNCHANGED slot /\ Did(op)
                     /\ hand' = [h \in Handles |-> IF hand[h] = j THEN 0 ELSE hand[h]]
Copy(i, j) == \E k \in {"copy", "deepcopy", "pickle"} : k \in Ops /\ Into(i, j, obj[i], << k, i, j >>)
Jumped(i, j) == "jumped" \in Ops /\ Into(i, j, [obj[i] EXCEPT !.pos = B, !.half = FALSE], << "jumped", i, j >>)
Create(j) == "new" \in Ops /\ \E i \in Objs : Into(i, j, New, << "new", j >>)

Save(i, k) == "save" \in Ops /\ Live(i) /\ slot' = [slot EXCEPT ![k] = obj[i]]
              /\ UNCHANGED << obj, hand >> /\ Did(<< "save", i, k >>)
Restore(i, k) == "restore" \in Ops /\ Live(i) /\ slot[k].live /\ obj' = [obj EXCEPT ![i] = slot[k]]
              /\ UNCHANGED << slot, hand >> /\ Did(<< "restore", i, k >>)

Next == \/ \E i \in Objs : Draw(i) \/ Bulk(i) \/ Advance(i) \/ Jump(i) \/ Reseed(i) \/ Refused(i) \/ Get(i)
        \/ \E i, j \in Objs : Copy(i, j) \/ Jumped(i, j)
        \/ \E j \in Objs : Create(j)
        \/ \E i \in Objs, k \in Slots : Save(i, k) \/ Restore(i, k)
        \/ \E i \in Objs, h \in Handles : Wrap(i, h)
        \/ \E h \in Handles : Via(h)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
TypeOK == \A i \in Objs : obj[i].pos \in 0..B /\ (obj[i].live => obj[i].pos \in 1..B)
HalfOnly64 == ~Keep => \A i \in Objs : ~obj[i].half
\* an operation moves only the object it names (the last argument of two-object operations)
Target == IF last'[1] \in {"copy", "deepcopy", "pickle", "jumped"} THEN last'[3]
          ELSE IF last'[1] \in {"save", "wrap"} THEN 0
          ELSE IF last'[1] \in {"via-n32", "via-n64", "via-dbl", "via-raw"} THEN hand[last'[2]] ELSE last'[2]
Isolation == [][\A i \in Objs : i # Target => obj'[i] = obj[i]]_vars
SlotsStay == [][last'[1] # "save" => slot' = slot]_vars
MovesDropHalf == [][last'[1] \in {"adv", "jump", "seed"} => ~obj'[Target].half]_vars

\* output for the harness
Emit == PrintT(<< "EDGE", ToJson([f |-> << obj, slot >>, op |-> last', t |-> << obj', slot' >>]) >>)
EmitWalk == Len(hist) < Depth \/ PrintT(<< "WALK", ToJson(hist) >>)
Bounded == Len(hist) < Depth
=============================================================================
