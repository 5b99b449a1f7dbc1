-------------------------------- MODULE Arith --------------------------------
(***************************************************************************)
(* Congruential and chaotic generators: PCG32, PCG64 (three variants),     *)
(* LCG128Mix, SFC64, JSF, Romu, Tyche, EFIIX64; their seeding procedures   *)
(* from SeedSequence words; and skip-ahead for the congruential ones.      *)
(* XNext(core) returns <<core', word>>.                                    *)
(***************************************************************************)
EXTENDS Word, SequencesExt

Rep(n) == [i \in 1..n |-> i]

\* ---- affine maps modulo 2^64 / 2^128 : x |-> m*x + a, composed k times
Affine64(m, a) == [m |-> m, a |-> a]
Compose64(f, g) == Affine64(Mul64(f.m, g.m), Add64(Mul64(f.m, g.a), f.a))   \* f after g
\* f^delta by binary decomposition; delta = W64 read as an unsigned integer
Power64(f, delta) ==
  FoldLeft(LAMBDA acc, i :
     << Compose64(acc[1], acc[1]),
        IF Bit64(delta, i - 1) = 1 THEN Compose64(acc[1], acc[2]) ELSE acc[2] >>,
     << f, Affine64(One64, Z64) >>, Rep(64))[2]
Apply64(f, x) == Add64(Mul64(f.m, x), f.a)

Affine128(m, a) == [m |-> m, a |-> a]
Compose128(f, g) == Affine128(Mul128(f.m, g.m), Add128(Mul128(f.m, g.a), f.a))
Power128(f, delta) ==
  FoldLeft(LAMBDA acc, i :
     << Compose128(acc[1], acc[1]),
        IF Bit128(delta, i - 1) = 1 THEN Compose128(acc[1], acc[2]) ELSE acc[2] >>,
     << f, Affine128(One128, Z128) >>, Rep(128))[2]
Apply128(f, x) == Add128(Mul128(f.m, x), f.a)

\* ---- PCG32 (XSH-RR): core = [s |-> W64, inc |-> W64 (odd)]
Pcg32Mult == <<32557, 19605, 62509, 22609>>
Pcg32Map(c) == Affine64(Pcg32Mult, c.inc)
Pcg32Next(c) ==
  LET x == Shr64(Xor64(Shr64(c.s, 18), c.s), 27)
  IN << [c EXCEPT !.s = Apply64(Pcg32Map(c), c.s)],
        Rotr32(Lo32(x), Shr64(c.s, 59)[1]) >>
Pcg32Advance(c, delta) == [c EXCEPT !.s = Apply64(Power64(Pcg32Map(c), delta), c.s)]
Pcg32Seed(st, seq) ==
  LET inc == Or64(Shl64(seq, 1), One64)
      f == Affine64(Pcg32Mult, inc)
  IN [s |-> Apply64(f, Add64(Apply64(f, Z64), st)), inc |-> inc]

\* ---- 128-bit congruential engine with output functions
Pcg64Mult == W128(<<23972, 8134, 60677, 9056>>, <<63045, 40908, 57188, 17285>>)
CheapMult == <<22709, 58589, 8258, 55956>>
OutXslRr(x) == Rotr64(Xor64(x.hi, x.lo), Shr64(x.hi, 58)[1])
OutDxsm(x, m) ==
  LET h1 == Mul64(Xor64(x.hi, Shr64(x.hi, 32)), m)
      h2 == Xor64(h1, Shr64(h1, 48))
  IN Mul64(h2, Or64(x.lo, One64))
OutMurmur(x) ==
  LET z1 == Mul64(Xor64(x.hi, Shr64(x.hi, 30)), <<58809, 7396, 18285, 48984>>)
      z2 == Mul64(Xor64(z1, Shr64(z1, 27)), <<4587, 4913, 18875, 38096>>)
  IN Xor64(z2, Shr64(z2, 31))

\* core = [s, inc, mult |-> W128, dm |-> W64, post |-> BOOLEAN, out |-> STRING]
Lcg128Map(c) == Affine128(c.mult, c.inc)
Lcg128Out(c, x) ==
  CASE c.out = "xsl-rr"  -> OutXslRr(x)
    [] c.out = "dxsm"    -> OutDxsm(x, c.dm)
    [] c.out = "murmur3" -> OutMurmur(x)
    [] c.out = "upper"   -> x.hi
    [] c.out = "lower"   -> x.lo
    [] c.out = "xorhl"   -> Xor64(x.hi, x.lo)      \* a user-supplied C function
Lcg128Next(c) ==
  LET s1 == Apply128(Lcg128Map(c), c.s)
  IN << [c EXCEPT !.s = s1], Lcg128Out(c, IF c.post THEN s1 ELSE c.s) >>
Lcg128Advance(c, delta) == [c EXCEPT !.s = Apply128(Power128(Lcg128Map(c), delta), c.s)]
Lcg128Seed(c, st, seq) ==
  LET inc == Or128(Shl128_1(seq), One128)
      f == Affine128(c.mult, inc)
  IN [c EXCEPT !.inc = inc, !.s = Apply128(f, Add128(Apply128(f, Z128), st))]
JumpStep128 == W128(<<31765, 32586, 31161, 40503>>, <<51252, 23789, 49248, 62364>>)
JumpStep64  == <<31766, 32586, 31161, 40503>>

\* ---- SFC64 with a Weyl increment k : core = [a, b, c, w, k]
SfcNext(s) ==
  LET o == Add64(Add64(s.a, s.b), s.w)
  IN << [a |-> Xor64(s.b, Shr64(s.b, 11)), b |-> Add64(s.c, Shl64(s.c, 3)),
         c |-> Add64(Rotl64(s.c, 24), o), w |-> Add64(s.w, s.k), k |-> s.k], o >>

\* ---- JSF : core = [a, b, c, d, p, q, r]   (64- and 32-bit)
Rl64(x, k) == IF k = 0 THEN x ELSE Rotl64(x, k)
Rl32(x, k) == IF k = 0 THEN x ELSE Rotl32(x, k)
Jsf64Next(s) ==
  LET e == Sub64(s.a, Rl64(s.b, s.p))
      a == Xor64(s.b, Rl64(s.c, s.q))
      b == Add64(s.c, Rl64(s.d, s.r))
      c == Add64(s.d, e)
      d == Add64(e, a)
  IN << [s EXCEPT !.a = a, !.b = b, !.c = c, !.d = d], d >>
Jsf32Next(s) ==
  LET e == Sub32(s.a, Rl32(s.b, s.p))
      a == Xor32(s.b, Rl32(s.c, s.q))
      b == Add32(s.c, Rl32(s.d, s.r))
      c == Add32(s.d, e)
      d == Add32(e, a)
  IN << [s EXCEPT !.a = a, !.b = b, !.c = c, !.d = d], d >>

\* ---- Romu : core = [w, x, y, z]
RomuMult == <<22347, 20300, 16000, 54147>>
RomuQuadNext(s) ==
  << [w |-> Mul64(RomuMult, s.z), x |-> Add64(s.z, Rotl64(s.w, 52)),
      y |-> Sub64(s.y, s.x), z |-> Rotl64(Add64(s.y, s.w), 19)], s.x >>
RomuTrioNext(s) ==
  << [w |-> s.w, x |-> Mul64(RomuMult, s.z), y |-> Rotl64(Sub64(s.y, s.x), 12),
      z |-> Rotl64(Sub64(s.z, s.y), 44)], s.x >>

\* ---- Tyche : core = [a, b, c, d] 32-bit words
TycheNext(s) ==
  LET a1 == Add32(s.a, s.b)
      d1 == Rotl32(Xor32(s.d, a1), 16)
      c1 == Add32(s.c, d1)
      b1 == Rotl32(Xor32(s.b, c1), 12)
      a2 == Add32(a1, b1)
      d2 == Rotl32(Xor32(d1, a2), 8)
      c2 == Add32(c1, d2)
      b2 == Rotl32(Xor32(b1, c2), 7)
  IN << [a |-> a2, b |-> b2, c |-> c2, d |-> d2], b2 >>
TycheInvNext(s) ==     \* the "openrand" variant, running the quarter round backwards
  LET b1 == Xor32(Rotl32(s.b, 7), s.c)
      c1 == Sub32(s.c, s.d)
      d1 == Xor32(Rotl32(s.d, 8), s.a)
      a1 == Sub32(s.a, b1)
      b2 == Xor32(Rotl32(b1, 12), c1)
      c2 == Sub32(c1, d1)
      d2 == Xor32(Rotl32(d1, 16), a1)
      a2 == Sub32(a1, b2)
  IN << [a |-> a2, b |-> b2, c |-> c2, d |-> d2], a2 >>

\* ---- EFIIX64x32 : core = [ind (16 words), it (32 words), i, a, b, c]
EfiixNext(s) ==
  LET pi == (s.i[1] % 32) + 1
      pc == (s.c[1] % 16) + 1
      iterated == s.it[pi]
      indirect == s.ind[pc]
      old == Xor64(s.a, s.b)
      b1 == Add64(s.c, indirect)
  IN << [ind |-> [s.ind EXCEPT ![pc] = Add64(iterated, s.a)],
         it |-> [s.it EXCEPT ![pi] = indirect],
         i |-> Inc64(s.i), a |-> Add64(s.b, s.i), b |-> b1,
         c |-> Add64(old, Rotl64(s.c, 25))],
        Xor64(b1, iterated) >>

------------------------------------------------------------------------------
(* Seeding from SeedSequence words *)
Iter(s, Next(_), n) == FoldLeft(LAMBDA acc, i : Next(acc)[1], s, Rep(n))

SfcSeed(w3, w, k) == Iter([a |-> w3[1], b |-> w3[2], c |-> w3[3], w |-> w, k |-> k], SfcNext, 12)
Jsf64Seed(p, q, r, ws) ==
  Iter([a |-> <<24301, 61930, 0, 0>>, b |-> ws[1], c |-> IF Len(ws) > 1 THEN ws[2] ELSE ws[1],
        d |-> IF Len(ws) > 2 THEN ws[3] ELSE ws[1], p |-> p, q |-> q, r |-> r], Jsf64Next, 20)
Jsf32Seed(p, q, r, ws) ==
  Iter([a |-> <<24301, 61930>>, b |-> ws[1], c |-> IF Len(ws) > 1 THEN ws[2] ELSE ws[1],
        d |-> IF Len(ws) > 2 THEN ws[3] ELSE ws[1], p |-> p, q |-> q, r |-> r], Jsf32Next, 20)
RomuSeed(ws, quad) ==
  LET s == [w |-> ws[1], x |-> ws[2], y |-> ws[3], z |-> ws[4]]
  IN IF quad THEN Iter(s, RomuQuadNext, 10) ELSE Iter(s, RomuTrioNext, 10)
\* low word of the 64-bit seed is ws[1]
TycheSeed(ws, idx, original) ==
  LET s == [a |-> ws[2], b |-> ws[1], c |-> <<31161, 40503>>, d |-> Xor32(<<49591, 20860>>, idx)]
  IN IF original THEN Iter(s, TycheNext, 20) ELSE Iter(s, TycheInvNext, 20)

\* Arbee, the seeder of EFIIX : [a, b, c, d, i]
ArbeeNext(s) ==
  LET e == Add64(s.a, Rotl64(s.b, 45))
      a == Xor64(s.b, Rotl64(s.c, 13))
      b == Add64(s.c, Rotl64(s.d, 37))
      c == Add64(Add64(e, s.d), s.i)
      d == Add64(e, a)
  IN << [a |-> a, b |-> b, c |-> c, d |-> d, i |-> Inc64(s.i)], d >>
ArbeeInit(a, b, c, d) == Iter([a |-> a, b |-> b, c |-> c, d |-> d, i |-> One64], ArbeeNext, 12)
\* n outputs: <<state', <<w1..wn>>>>
ArbeeTake(s, n) == FoldLeft(LAMBDA acc, i : LET r == ArbeeNext(acc[1]) IN << r[1], Append(acc[2], r[2]) >>,
                            << s, <<>> >>, Rep(n))
EfiixSeed(ws) ==
  LET A0 == ArbeeInit(ws[1], ws[2], ws[3], ws[4])
      T1 == ArbeeTake(A0, 16)            \* indirection table
      TI == ArbeeNext(T1[1])             \* counter
      T2 == ArbeeTake(TI[1], 32)         \* iteration table, rotated by the counter
      T3 == ArbeeTake(T2[1], 3)          \* a, b, c
      off == TI[2][1] % 32
      e0 == [ind |-> T1[2],
             it |-> FoldLeft(LAMBDA acc, k : [acc EXCEPT ![((k - 1 + off) % 32) + 1] = T2[2][k]], T2[2], Rep(32)),
             i |-> TI[2], a |-> T3[2][1], b |-> T3[2][2], c |-> T3[2][3]]
      e1 == Iter(e0, EfiixNext, 64)
      T4 == ArbeeTake(T3[1], 4)          \* the first of these is discarded
      B0 == ArbeeInit(Xor64(Add64(ws[1], T4[2][2]), e1.a), Xor64(Add64(ws[2], T4[2][3]), e1.b),
                      Xor64(Add64(ws[3], T4[2][4]), e1.c), Not64(ws[4]))
      T5 == ArbeeTake(B0, 16)
      e2 == [e1 EXCEPT !.ind = FoldLeft(LAMBDA acc, k : [acc EXCEPT ![k] = Xor64(acc[k], T5[2][k])], e1.ind, Rep(16))]
  IN Iter(e2, EfiixNext, 48)
=============================================================================
