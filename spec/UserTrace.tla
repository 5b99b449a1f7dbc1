------------------------------ MODULE UserTrace ------------------------------
(***************************************************************************)
(* Bit generators made from user callbacks.  The machine: each callback    *)
(* has a script of values and a position in it; a draw through some view   *)
(* makes certain calls, in order, each with the user's state pointer, and  *)
(* combines what they return.  A trace gives the value and the calls that  *)
(* really happened.                                                        *)
(*   raw  the native words (64 or 32 bits)                                 *)
(*   f64 f32 fdbl  optional; synthesised from raw when missing             *)
(***************************************************************************)
EXTENDS Word, SequencesExt, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
ASSUME Len(Trace) > 0
VARIABLES gens, l
vars == << gens, l >>
Init == gens = << >> /\ l = 1
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Put(o, s) == gens' = (o :> s) @@ gens
At(o) == gens[o]

\* one call: << generator, value, call >>
Ask(u, f) == << [u EXCEPT !.pos[f] = @ + 1], u.script[f][u.pos[f]], << f, u.ptr >> >>
Has(u, f) == f \in u.given
Lo(x) == Lo32(x)
\* << generator, value, calls >>
Raw(u) == LET a == Ask(u, "raw") IN << a[1], a[2], << a[3] >> >>
U64(u) == IF Has(u, "f64") THEN LET a == Ask(u, "f64") IN << a[1], a[2], << a[3] >> >>
          ELSE IF u.bits = 64 THEN Raw(u)
          ELSE LET a == Ask(u, "raw")
                   b == Ask(a[1], "raw")
               IN << b[1], Join32(Lo(a[2]), Lo(b[2])), << a[3], b[3] >> >>
U32(u) == IF Has(u, "f32") THEN LET a == Ask(u, "f32") IN << a[1], a[2], << a[3] >> >>
          ELSE LET a == Ask(u, "raw")
               IN << a[1], IF u.bits = 32 THEN Lo(a[2]) ELSE Hi32(a[2]), << a[3] >> >>
Dbl(u) == IF Has(u, "fdbl") THEN LET a == Ask(u, "fdbl") IN << a[1], a[2], << a[3] >> >>
          ELSE IF u.bits = 64 THEN LET a == Ask(u, "raw") IN << a[1], Shr64(a[2], 11), << a[3] >> >>
          ELSE LET a == Ask(u, "raw")
                   b == Ask(a[1], "raw")
               IN << b[1], Add64(Shl64(Zext(Shr32(Lo(a[2]), 5)), 26), Zext(Shr32(Lo(b[2]), 6))), << a[3], b[3] >> >>
Via(r, f(_)) == << r[1], f(r[2]), r[3] >>
View(v, u) == CASE v = "raw" -> Raw(u) [] v = "n64" -> U64(u) [] v = "ld" -> U64(u)
                [] v = "n32" -> U32(u) [] v = "dbl" -> Dbl(u)
                [] v = "flt" -> Via(U32(u), LAMBDA x : Shr32(x, 9))
                [] v = "npf" -> Via(U32(u), LAMBDA x : Shr32(x, 8))

Reset == Is("reset") /\ gens' = << >>
\* E.script: for every callback the values it is going to return
User == Is("user") /\ Put(E.o, [bits |-> E.bits, given |-> ToSet(E.given), ptr |-> E.ptr, script |-> E.script,
                                pos |-> [f \in {"raw", "f64", "f32", "fdbl"} |-> 1], st |-> E.st, getter |-> E.getter, setter |-> E.setter])
Draws == /\ Is("draw")
         /\ LET r == FoldLeft(LAMBDA acc, w : IF acc[2] THEN LET d == View(E.v, acc[1]) IN << d[1], d[2] = w, acc[3] \o d[3] >> ELSE acc,
                              << At(E.o), TRUE, << >> >>, E.out)
            IN r[2] /\ r[3] = E.calls /\ Put(E.o, r[1])
Skip == /\ Is("skip")
        /\ LET r == FoldLeft(LAMBDA acc, i : LET d == View(E.v, acc[1]) IN << d[1], acc[2] \o d[3] >>,
                             << At(E.o), << >> >>, [i \in 1..E.n |-> i])
           IN r[2] = E.calls /\ Put(E.o, r[1])
\* the state is the user's business; without a getter or setter it is refused
GetState == /\ Is("uget") /\ UNCHANGED gens
            /\ E.calls = << >>
            /\ IF At(E.o).getter THEN E.ok /\ E.out = At(E.o).st /\ E.asked = 1 ELSE ~E.ok
SetState == /\ Is("uset") /\ E.calls = << >>
            /\ IF At(E.o).setter THEN E.ok /\ E.stored = E.val /\ E.asked = 1 /\ Put(E.o, [At(E.o) EXCEPT !.st = E.val])
               ELSE ~E.ok /\ UNCHANGED gens
Refused == Is("refused") /\ UNCHANGED gens
Next == Reset \/ User \/ Draws \/ Skip \/ GetState \/ SetState \/ Refused
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
