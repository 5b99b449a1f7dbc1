----------------------------- MODULE ThreadTrace -----------------------------
(***************************************************************************)
(* Histories of threads that share bit generators.  The lines of a trace   *)
(* are the finished calls in the order in which they are claimed to have   *)
(* taken effect, each with the times at which it began (b) and ended (e).  *)
(* The history is serial when every line is a step of the machine in Gen   *)
(* and no call took effect after one that began only when it had ended.    *)
(***************************************************************************)
EXTENDS Gen, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
ASSUME Len(Trace) > 0
VARIABLES objs, cur, begun, l
vars == << objs, cur, begun, l >>
Init == objs = << >> /\ cur = << >> /\ begun = 0 /\ l = 1
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Put(o, s) == objs' = (o :> s) @@ objs
At(o) == objs[o]
St(e) == [g |-> e.g, core |-> e.core, has |-> e.has, ui |-> e.ui]
Later(a, b) == IF a > b THEN a ELSE b
InOrder == E.b < E.e /\ E.e > begun /\ begun' = Later(begun, E.b)
Reset == Is("reset") /\ objs' = << >> /\ cur' = << >> /\ begun' = 0
New == Is("new") /\ Put(E.o, St(E)) /\ UNCHANGED << cur, begun >>
Draws == /\ Is("draw") /\ InOrder
         /\ LET r == FoldLeft(LAMBDA acc, w : IF acc[2] THEN LET d == Draw(E.v, acc[1]) IN << d[1], d[2] = w >> ELSE acc, << At(E.o), TRUE >>, E.out)
            IN r[2] /\ Put(E.o, r[1])
         /\ UNCHANGED cur
Skip == /\ Is("skip") /\ InOrder /\ UNCHANGED cur
        /\ Put(E.o, FoldLeft(LAMBDA s, i : Draw(E.v, s)[1], At(E.o), [i \in 1..E.n |-> i]))
Advance == Is("adv") /\ InOrder /\ UNCHANGED cur /\ Put(E.o, Adv(At(E.o), E.a))
Get == Is("get") /\ InOrder /\ UNCHANGED cur /\ Same(At(E.o), St(E)) /\ Put(E.o, St(E))
Set == Is("set") /\ InOrder /\ UNCHANGED cur /\ At(E.o).g = E.g /\ Put(E.o, St(E))
\* large calls: a call got the words out[1] .. out[1] + n - 1 of the stream (-1: not a stretch of the stream)
Open == Is("open") /\ cur' = (E.o :> E.pos) @@ cur /\ UNCHANGED << objs, begun >>
Block == /\ Is("block") /\ InOrder /\ UNCHANGED objs
         /\ E.out[1] = cur[E.o] /\ cur' = [cur EXCEPT ![E.o] = @ + E.n]
Next == Reset \/ New \/ Draws \/ Skip \/ Advance \/ Get \/ Set \/ Open \/ Block
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
