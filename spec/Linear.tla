------------------------------- MODULE Linear -------------------------------
(***************************************************************************)
(* F2-linear generators with a small state: xoshiro256**, xoshiro512**,    *)
(* xoroshiro128+ / ++, xorshift1024*phi.  Each XNext(core) returns         *)
(* <<core', word>>.                                                        *)
(***************************************************************************)
EXTENDS Word, SequencesExt

\* ---- xoshiro256** : core = <<s0, s1, s2, s3>>
Xo256Step(s) ==
  LET t  == Shl64(s[2], 17)
      c2 == Xor64(s[3], s[1])
      c3 == Xor64(s[4], s[2])
  IN << Xor64(s[1], c3), Xor64(s[2], c2), Xor64(c2, t), Rotl64(c3, 45) >>
Mul5(x) == Add64(Shl64(x, 2), x)
Mul9(x) == Add64(Shl64(x, 3), x)
StarStar(x) == Mul9(Rotl64(Mul5(x), 7))
Xo256Next(s) == << Xo256Step(s), StarStar(s[2]) >>

\* ---- xoshiro512** : core = <<s0, ..., s7>>
Xo512Step(s) ==
  LET t  == Shl64(s[2], 11)
      c2 == Xor64(s[3], s[1])
      c5 == Xor64(s[6], s[2])
      c1 == Xor64(s[2], c2)
      c7 == Xor64(s[8], s[4])
      c3 == Xor64(s[4], s[5])
      c4 == Xor64(s[5], c5)
      c0 == Xor64(s[1], s[7])
      c6 == Xor64(s[7], c7)
  IN << c0, c1, c2, c3, c4, c5, Xor64(c6, t), Rotl64(c7, 21) >>
Xo512Next(s) == << Xo512Step(s), StarStar(s[2]) >>

\* ---- xoroshiro128 : core = <<s0, s1>>
XoroStep(s, a, b, c) ==
  LET x == Xor64(s[2], s[1])
  IN << Xor64(Xor64(Rotl64(s[1], a), x), Shl64(x, b)), Rotl64(x, c) >>
XoroPStep(s)  == XoroStep(s, 24, 16, 37)
XoroPPStep(s) == XoroStep(s, 49, 21, 28)
XoroPNext(s)  == << XoroPStep(s), Add64(s[1], s[2]) >>
XoroPPNext(s) == << XoroPPStep(s), Add64(Rotl64(Add64(s[1], s[2]), 17), s[1]) >>

\* ---- xorshift1024*phi : core = [s |-> 16 words, p |-> 0..15]
\* (a window of the last 16 words in a ring; p points at the newest)
Phi == <<31763, 32586, 31161, 40503>>
XsStep(c) ==
  LET p1 == (c.p + 1) % 16
      s0 == c.s[c.p + 1]
      s1 == c.s[p1 + 1]
      x  == Xor64(s1, Shl64(s1, 31))
      n  == Xor64(Xor64(Xor64(x, s0), Shr64(x, 11)), Shr64(s0, 30))
  IN [s |-> [c.s EXCEPT ![p1 + 1] = n], p |-> p1]
XsNext(c) == LET d == XsStep(c) IN << d, Mul64(d.s[d.p + 1], Phi) >>

\* ---- LXM: xoshiro256 engine + 64-bit LCG, mixed by Stafford's variant of murmur
\* core = [x |-> 4 words, l |-> lcg word, b |-> odd addend]
Mix64(z0) ==
  LET z1 == Mul64(Xor64(z0, Shr64(z0, 30)), <<58809, 7396, 18285, 48984>>)
      z2 == Mul64(Xor64(z1, Shr64(z1, 27)), <<4587, 4913, 18875, 38096>>)
  IN Xor64(z2, Shr64(z2, 31))
LxmMult == <<45309, 34736, 12006, 10171>>
LxmNext(c) ==
  << [x |-> Xo256Step(c.x), l |-> Add64(Mul64(c.l, LxmMult), c.b), b |-> c.b],
     Mix64(Add64(c.x[1], c.l)) >>

------------------------------------------------------------------------------
(* Jumps: advancing an F2-linear map T by 2^k steps equals evaluating the     *)
(* polynomial x^(2^k) mod P (P the characteristic polynomial of T) at T; the  *)
(* coefficient lists below are those polynomials (checked in JumpPoly.tla).   *)
(* PolyEval(poly, s, Step, Plus, zero) = sum of T^i(s) over the set bits i.   *)
PolyEval(poly, s0, Step(_), Plus(_, _), zero) ==
  LET n == Len(poly) * 64
      bit(i) == Bit64(poly[(i \div 64) + 1], i % 64)
      r == FoldLeft(LAMBDA acc, i :
             << Step(acc[1]), IF bit(i - 1) = 1 THEN Plus(acc[2], acc[1]) ELSE acc[2] >>,
             << s0, zero >>, [i \in 1..n |-> i])
  IN r[2]

XorSeq2(a, b) == << Xor64(a[1], b[1]), Xor64(a[2], b[2]) >>
XorSeq4(a, b) == << Xor64(a[1], b[1]), Xor64(a[2], b[2]), Xor64(a[3], b[3]), Xor64(a[4], b[4]) >>
XorSeq8(a, b) == << Xor64(a[1], b[1]), Xor64(a[2], b[2]), Xor64(a[3], b[3]), Xor64(a[4], b[4]),
                    Xor64(a[5], b[5]), Xor64(a[6], b[6]), Xor64(a[7], b[7]), Xor64(a[8], b[8]) >>

Xo256Poly == << <<2746, 15613, 50899, 6158>>, <<14636, 61641, 4710, 54694>>, <<51626, 57407, 9752, 43352>>, <<26140, 10673, 56389, 14763>> >>
Xo512Poly == << <<21497, 59299, 35254, 13293>>, <<9150, 38227, 33751, 30208>>, <<12206, 46578, 62203, 10295>>, <<20764, 54025, 22132, 19340>>,
                <<35877, 31650, 50298, 45338>>, <<52252, 2347, 30311, 61886>>, <<2735, 46815, 7933, 21381>>, <<9691, 16047, 51378, 7867>> >>
XoroPPoly  == << <<21669, 55541, 660, 57232>>, <<508, 19250, 26079, 5896>> >>
XoroPPPoly == << <<11740, 59804, 42662, 11223>>, <<51717, 27247, 52399, 2450>> >>
XsPoly == << <<50205, 60585, 12182, 33828>>, <<26709, 30457, 23431, 41926>>, <<22583, 1803, 41887, 23348>>,
             <<6686, 58611, 45052, 17545>>, <<28480, 18481, 60170, 12286>>, <<49186, 65128, 39057, 56365>>,
             <<60016, 45359, 4907, 13913>>, <<51896, 64067, 32142, 43713>>, <<39699, 37016, 33109, 50379>>,
             <<51515, 15729, 29992, 24297>>, <<54592, 27675, 18632, 26901>>, <<59045, 4257, 50205, 30992>>,
             <<58024, 25523, 50757, 2911>>, <<38045, 59900, 30340, 1151>>, <<34250, 55542, 33266, 47505>>,
             <<14531, 62222, 227, 10310>> >>

Xo256Jump(s) == PolyEval(Xo256Poly, s, Xo256Step, XorSeq4, <<Z64, Z64, Z64, Z64>>)
Xo512Jump(s) == PolyEval(Xo512Poly, s, Xo512Step, XorSeq8, <<Z64, Z64, Z64, Z64, Z64, Z64, Z64, Z64>>)
XoroPJump(s)  == PolyEval(XoroPPoly, s, XoroPStep, XorSeq2, <<Z64, Z64>>)
XoroPPJump(s) == PolyEval(XoroPPPoly, s, XoroPPStep, XorSeq2, <<Z64, Z64>>)

\* xorshift1024: work on the window oldest..newest so that the ring position
\* does not matter; the ring position is unchanged by a jump (2^512 mod 16 = 0)
XsWindow(c) == << c.s[(c.p % 16) + 1], c.s[((c.p + 1) % 16) + 1], c.s[((c.p + 2) % 16) + 1], c.s[((c.p + 3) % 16) + 1],
                  c.s[((c.p + 4) % 16) + 1], c.s[((c.p + 5) % 16) + 1], c.s[((c.p + 6) % 16) + 1], c.s[((c.p + 7) % 16) + 1],
                  c.s[((c.p + 8) % 16) + 1], c.s[((c.p + 9) % 16) + 1], c.s[((c.p + 10) % 16) + 1], c.s[((c.p + 11) % 16) + 1],
                  c.s[((c.p + 12) % 16) + 1], c.s[((c.p + 13) % 16) + 1], c.s[((c.p + 14) % 16) + 1], c.s[((c.p + 15) % 16) + 1] >>
\* the same step on a window: the new window drops the newest-but-... element;
\* element 1 is s[p], element 2 is s[p+1] (the oldest, replaced by the step)
XsWinStep(w) ==
  LET x == Xor64(w[2], Shl64(w[2], 31))
      n == Xor64(Xor64(Xor64(x, w[1]), Shr64(x, 11)), Shr64(w[1], 30))
  IN << n, w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11], w[12], w[13], w[14], w[15], w[16], w[1] >>
XorWin(a, b) == << Xor64(a[1], b[1]), Xor64(a[2], b[2]), Xor64(a[3], b[3]), Xor64(a[4], b[4]),
                   Xor64(a[5], b[5]), Xor64(a[6], b[6]), Xor64(a[7], b[7]), Xor64(a[8], b[8]),
                   Xor64(a[9], b[9]), Xor64(a[10], b[10]), Xor64(a[11], b[11]), Xor64(a[12], b[12]),
                   Xor64(a[13], b[13]), Xor64(a[14], b[14]), Xor64(a[15], b[15]), Xor64(a[16], b[16]) >>
XsJump(c) ==
  LET w == PolyEval(XsPoly, XsWindow(c), XsWinStep, XorWin,
             <<Z64, Z64, Z64, Z64, Z64, Z64, Z64, Z64, Z64, Z64, Z64, Z64, Z64, Z64, Z64, Z64>>)
  \* position (j + p) mod 16 of the ring gets window element j + 1
      at(i) == w[((i + 16 - c.p) % 16) + 1]
  IN [s |-> << at(0), at(1), at(2), at(3), at(4), at(5), at(6), at(7),
               at(8), at(9), at(10), at(11), at(12), at(13), at(14), at(15) >>, p |-> c.p]
LxmJump(c) == [c EXCEPT !.x = Xo256Jump(c.x)]
=============================================================================
