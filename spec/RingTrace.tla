------------------------------ MODULE RingTrace ------------------------------
(***************************************************************************)
(* Jumps of the ring engines (MT19937, SFMT19937, dSFMT19937).  Their      *)
(* state is a window of a linear recurrence w_0, w_1, ...; a jump by J     *)
(* steps gives the window at w_J, and because x^J = p(x) modulo the        *)
(* minimal polynomial, w_(J+j) is the sum of w_(i+j) over the exponents i  *)
(* of p.  RingPoly.json holds p for J = 2^128, 2^132, ..., derived from    *)
(* the recurrences (harness/jumppoly.py).  The observed state is compared  *)
(* with these sums at the window positions E.at (all of them in deep       *)
(* runs); jumps by other counts must agree with chains of verified ones.   *)
(***************************************************************************)
EXTENDS StreamTrace

VARIABLE anc        \* object -> << root, jumps made since >>
RV == << objs, l, own, trees, anc >>

Poly == JsonDeserialize("RingPoly.json")
ExpsOf(p) == SelectSeq([i \in 1..20000 |-> i - 1], LAMBDA e : (p[(e \div 16) + 1] \div Pow2(e % 16)) % 2 = 1)
Exps == [r \in 1..3 |-> [k \in 1..5 |-> ExpsOf(Poly[r].p[k])]]
RingNo(g) == CHOOSE r \in 1..3 : Poly[r].g = g
Single == << 1, 16, 256, 4096, 65536 >>
IsSingle(n) == \E k \in 1..5 : Single[k] = n
ExpsFor(g, n) == Exps[RingNo(g)][CHOOSE k \in 1..5 : Single[k] = n]
Idx(n) == [i \in 1..n |-> i]

\* the window of a state and the words that follow it
MtWindow(c) == [j \in 1..624 |-> c.key[((c.pos + j - 1) % 624) + 1]]
RingSeq(g, c) ==
  CASE g = "mt"   -> FoldLeft(LAMBDA a, i : LET b == T!MtGen(a[2]) IN << a[1] \o b, b >>, << MtWindow(c), MtWindow(c) >>, Idx(33))[1]
    [] g = "sfmt" -> FoldLeft(LAMBDA a, i : LET b == T!SfmtGen(a[2]) IN << a[1] \o b, b >>, << c.s, c.s >>, Idx(129))[1]
    [] g = "dsfmt" -> FoldLeft(LAMBDA a, i : LET b == T!DsfmtGen(a[2], a[3]) IN << a[1] \o b[1], b[1], b[2] >>, << c.s, c.s, c.u >>, Idx(105))[1]
\* lungs u_0, u_1, ... of dSFMT: u_(i+1) from u_i, w_i and w_(i+117)
Lungs(ws, u, n) == FoldLeft(LAMBDA us, i : Append(us, T!DsfmtRec(ws[i], ws[i + 117], us[i])[2]), << u >>, Idx(n))

X2(a, b) == << Xor64(a[1], b[1]), Xor64(a[2], b[2]) >>
Sum(Plus(_, _), zero, ws, ex, j) == FoldLeft(LAMBDA a, e : Plus(a, ws[e + j + 1]), zero, ex)
Z2 == << Z64, Z64 >>

MovedOk(g, n, c, d, at) ==
  LET ex == ExpsFor(g, n)
      ws == RingSeq(g, c)
  IN CASE g = "mt" ->
            LET w == MtWindow(d)
            IN \A k \in 1..Len(at) : LET j == at[k] IN
                 IF j = 0 THEN Sum(Xor32, Z32, ws, ex, 0)[2] \div 32768 = w[1][2] \div 32768   \* only its top bit is state
                 ELSE w[j + 1] = Sum(Xor32, Z32, ws, ex, j)
       [] g = "sfmt" ->
            /\ \A k \in 1..Len(at) : d.s[at[k] + 1] = Sum(T!X8, T!Zero8, ws, ex, at[k])
            /\ d.loc = 312
       [] g = "dsfmt" ->
            /\ \A k \in 1..Len(at) : d.s[at[k] + 1] = Sum(X2, Z2, ws, ex, at[k])
            /\ d.u = Sum(X2, Z2, Lungs(ws, c.u, 19999), ex, 0)
            /\ d.loc = 382
\* the same window (and, for MT, whatever the layout)
SameRing(a, b) == /\ a.g = b.g /\ a.has = 0 /\ b.has = 0
                  /\ IF a.g = "mt" THEN LET v == MtWindow(a.core) w == MtWindow(b.core)
                                        IN Tail(v) = Tail(w) /\ v[1][2] \div 32768 = w[1][2] \div 32768
                     ELSE a.core = b.core

Anc(o, a) == anc' = (o :> a) @@ anc
\* a state that other states are compared with
Root == Is("root") /\ Anc(E.o, << E.o, 0 >>) /\ UNCHANGED objs
\* o = src (possibly itself) moved n jumps, as observed; no half word is pending
RJump == /\ Is("rjump") /\ E.has = 0 /\ IsSingle(E.n)
         /\ MovedOk(E.g, E.n, At(E.src).core, E.core, E.at)
         /\ Put(E.o, St(E)) /\ Anc(E.o, << anc[E.src][1], anc[E.src][2] + E.n >>)
\* o = src moved n jumps: the same place as E.same
RSame == /\ Is("rsame")
         /\ anc[E.same] = << anc[E.src][1], anc[E.src][2] + E.n >>
         /\ SameRing(At(E.same), St(E))
         /\ Put(E.o, St(E)) /\ Anc(E.o, anc[E.same])
\* after a jump by 2^128 from src, the words returned are those of the recurrence from w_J on
RWords == /\ Is("rwords")
          /\ LET ws == RingSeq(At(E.src).g, At(E.src).core)
                 ex == ExpsFor(At(E.src).g, 1)
             IN \A k \in 1..Len(E.at) : T!MtTemper(Sum(Xor32, Z32, ws, ex, E.at[k])) = E.out[k]
          /\ UNCHANGED << objs, anc >>

RNext == \/ Next /\ anc' = (IF E.op = "reset" THEN << >> ELSE anc)
         \/ (Root \/ RJump \/ RSame \/ RWords) /\ UNCHANGED << own, trees >>
RSpec == Init /\ anc = << >> /\ [][RNext]_RV
=============================================================================
