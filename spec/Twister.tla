------------------------------- MODULE Twister -------------------------------
(***************************************************************************)
(* Block generators: MT19937, MT19937-64, SFMT19937, dSFMT19937, HC-128:   *)
(* recurrence, tempering, buffers and initialisation.                      *)
(***************************************************************************)
EXTENDS Word, SequencesExt

LOCAL Idx(n) == [i \in 1..n |-> i]

------------------------------------------------------------------------------
(* MT19937 : core = [key |-> 624 W32, pos |-> 0..624] *)
MtComb(hi, lo, far) ==   \* far ^ (y >> 1) ^ (y odd ? A : 0), y = upper bit of hi, lower 31 of lo
  LET y == << lo[1], (hi[2] & 32768) + (lo[2] % 32768) >>
      s == Xor32(far, Shr32(y, 1))
  IN IF lo[1] % 2 = 1 THEN Xor32(s, <<45279, 39176>>) ELSE s
MtGen(k) ==
  FoldLeft(LAMBDA r, i :
     Append(r, MtComb(k[i], IF i < 624 THEN k[i + 1] ELSE r[1],
                      IF i + 397 <= 624 THEN k[i + 397] ELSE r[i - 227])), << >>, Idx(624))
MtTemper(y0) ==
  LET y1 == Xor32(y0, Shr32(y0, 11))
      y2 == Xor32(y1, And32(Shl32(y1, 7), <<22144, 40236>>))
      y3 == Xor32(y2, And32(Shl32(y2, 15), <<0, 61382>>))
  IN Xor32(y3, Shr32(y3, 18))
MtNext(c) ==
  LET d == IF c.pos = 624 THEN [key |-> MtGen(c.key), pos |-> 0] ELSE c
  IN << [d EXCEPT !.pos = @ + 1], MtTemper(d.key[d.pos + 1]) >>
\* one step of the recurrence on a ring with read position p (0-based): used by jumps
MtRing(r) ==
  LET a == r.key
      at(j) == a[((r.pos + j) % 624) + 1]
  IN [key |-> [a EXCEPT ![r.pos + 1] = MtComb(at(0), at(1), at(397))], pos |-> (r.pos + 1) % 624]

MtInit(s) ==
  FoldLeft(LAMBDA r, i :
     Append(r, Add32(Mul32(<<35173, 27655>>, Xor32(r[i], Shr32(r[i], 30))), N32(i))), << s >>, Idx(623))
\* Matsumoto's initialisation by array; ks = key words
MtInitByArray(ks) ==
  LET L == Len(ks)
      n1 == IF L > 624 THEN L ELSE 624
      wrap(st) == IF st.i >= 624 THEN [mt |-> [st.mt EXCEPT ![1] = st.mt[624]], i |-> 1, j |-> st.j] ELSE st
      s1 == FoldLeft(LAMBDA st, u :
              LET p == st.mt[st.i]                      \* mt[i-1], 0-based i
                  v == Add32(Add32(Xor32(st.mt[st.i + 1], Mul32(Xor32(p, Shr32(p, 30)), <<26125, 25>>)),
                                   ks[st.j + 1]), N32(st.j))
              IN wrap([mt |-> [st.mt EXCEPT ![st.i + 1] = v], i |-> st.i + 1,
                       j |-> IF st.j + 1 >= L THEN 0 ELSE st.j + 1]),
              [mt |-> MtInit(<<54954, 299>>), i |-> 1, j |-> 0], Idx(n1))
      s2 == FoldLeft(LAMBDA st, u :
              LET p == st.mt[st.i]
                  v == Sub32(Xor32(st.mt[st.i + 1], Mul32(Xor32(p, Shr32(p, 30)), <<35685, 23896>>)), N32(st.i))
              IN wrap([mt |-> [st.mt EXCEPT ![st.i + 1] = v], i |-> st.i + 1, j |-> 0]),
              s1, Idx(623))
  IN [s2.mt EXCEPT ![1] = <<0, 32768>>]
MtSeed(ws) == [key |-> MtInitByArray(ws), pos |-> 624]
\* numpy-compatible seeding keeps the words themselves; its position is 623
MtSeedNumpy(ws) == [key |-> [ws EXCEPT ![1] = <<0, 32768>>], pos |-> 623]

------------------------------------------------------------------------------
(* MT19937-64 : core = [key |-> 312 W64, pos |-> 0..312] *)
Mt64Comb(hi, lo, far) ==
  LET y == << lo[1], (lo[2] % 32768) + (hi[2] & 32768), hi[3], hi[4] >>
      s == Xor64(far, Shr64(y, 1))
  IN IF lo[1] % 2 = 1 THEN Xor64(s, <<6633, 43366, 28506, 46338>>) ELSE s
Mt64Gen(k) ==
  FoldLeft(LAMBDA r, i :
     Append(r, Mt64Comb(k[i], IF i < 312 THEN k[i + 1] ELSE r[1],
                        IF i + 156 <= 312 THEN k[i + 156] ELSE r[i - 156])), << >>, Idx(312))
Mt64Temper(x0) ==
  LET x1 == Xor64(x0, And64(Shr64(x0, 29), <<21845, 21845, 21845, 21845>>))
      x2 == Xor64(x1, And64(Shl64(x1, 17), <<0, 60838, 32767, 29142>>))
      x3 == Xor64(x2, And64(Shl64(x2, 37), <<0, 0, 61152, 65527>>))
  IN Xor64(x3, Shr64(x3, 43))
Mt64Next(c) ==
  LET d == IF c.pos = 312 THEN [key |-> Mt64Gen(c.key), pos |-> 0] ELSE c
  IN << [d EXCEPT !.pos = @ + 1], Mt64Temper(d.key[d.pos + 1]) >>
Mt64Init(s) ==
  FoldLeft(LAMBDA r, i :
     Append(r, Add64(Mul64(<<32557, 19605, 62509, 22609>>, Xor64(r[i], Shr64(r[i], 62))), N64(i))), << s >>, Idx(311))
Mt64InitByArray(ks) ==       \* Len(ks) = 312
  LET wrap(st) == IF st.i >= 312 THEN [mt |-> [st.mt EXCEPT ![1] = st.mt[312]], i |-> 1, j |-> st.j] ELSE st
      s1 == FoldLeft(LAMBDA st, u :
              LET p == st.mt[st.i]
                  v == Add64(Add64(Xor64(st.mt[st.i + 1], Mul64(Xor64(p, Shr64(p, 62)), <<16261, 12709, 59919, 13981>>)),
                                   ks[st.j + 1]), N64(st.j))
              IN wrap([mt |-> [st.mt EXCEPT ![st.i + 1] = v], i |-> st.i + 1,
                       j |-> IF st.j + 1 >= Len(ks) THEN 0 ELSE st.j + 1]),
              [mt |-> Mt64Init(N64(19650218)), i |-> 1, j |-> 0], Idx(312))
      s2 == FoldLeft(LAMBDA st, u :
              LET p == st.mt[st.i]
                  v == Sub64(Xor64(st.mt[st.i + 1], Mul64(Xor64(p, Shr64(p, 62)), <<45309, 34736, 12006, 10171>>)), N64(st.i))
              IN wrap([mt |-> [st.mt EXCEPT ![st.i + 1] = v], i |-> st.i + 1, j |-> 0]),
              s1, Idx(311))
  IN [s2.mt EXCEPT ![1] = <<0, 0, 0, 32768>>]
Mt64Seed(ws) == [key |-> Mt64InitByArray(ws), pos |-> 312]

------------------------------------------------------------------------------
(* SFMT19937 : core = [s |-> 156 blocks of 8 limbs, buf |-> 312 W64, loc]   *)
(* buf holds the current output block, words already returned are zero      *)
X8(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4], a[5] ^^ b[5], a[6] ^^ b[6], a[7] ^^ b[7], a[8] ^^ b[8] >>
A8(a, b) == << a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4], a[5] & b[5], a[6] & b[6], a[7] & b[7], a[8] & b[8] >>
Zero8 == << 0, 0, 0, 0, 0, 0, 0, 0 >>
Shl8bits(a) == << (a[1] * 256) % B16, ((a[2] * 256) % B16) + (a[1] \div 256), ((a[3] * 256) % B16) + (a[2] \div 256),
                  ((a[4] * 256) % B16) + (a[3] \div 256), ((a[5] * 256) % B16) + (a[4] \div 256), ((a[6] * 256) % B16) + (a[5] \div 256),
                  ((a[7] * 256) % B16) + (a[6] \div 256), ((a[8] * 256) % B16) + (a[7] \div 256) >>
Shr8bits(a) == << (a[1] \div 256) + ((a[2] * 256) % B16), (a[2] \div 256) + ((a[3] * 256) % B16), (a[3] \div 256) + ((a[4] * 256) % B16),
                  (a[4] \div 256) + ((a[5] * 256) % B16), (a[5] \div 256) + ((a[6] * 256) % B16), (a[6] \div 256) + ((a[7] * 256) % B16),
                  (a[7] \div 256) + ((a[8] * 256) % B16), a[8] \div 256 >>
Lanes(a, F(_)) == F(<< a[1], a[2] >>) \o F(<< a[3], a[4] >>) \o F(<< a[5], a[6] >>) \o F(<< a[7], a[8] >>)
Shr11(x) == Shr32(x, 11)
Shl18(x) == Shl32(x, 18)
SfmtMask == <<65519, 57343>> \o <<52095, 56830>> \o <<65535, 49146>> \o <<65526, 49151>>
SfmtRec(a, b, c, d) ==
  X8(X8(a, Shl8bits(a)), X8(X8(A8(Lanes(b, Shr11), SfmtMask), Shr8bits(c)), Lanes(d, Shl18)))
SfmtGen(s) ==
  FoldLeft(LAMBDA r, i :
     Append(r, SfmtRec(s[i], IF i + 122 <= 156 THEN s[i + 122] ELSE r[i - 34],
                       IF i = 1 THEN s[155] ELSE IF i = 2 THEN s[156] ELSE r[i - 2],
                       IF i = 1 THEN s[156] ELSE r[i - 1])), << >>, Idx(156))
BlockWords(s) == FoldLeft(LAMBDA ws, b : ws \o << << b[1], b[2], b[3], b[4] >>, << b[5], b[6], b[7], b[8] >> >>, << >>, s)
SfmtNext(c) ==
  IF c.loc < 312
  THEN << [c EXCEPT !.loc = @ + 1, !.buf[c.loc + 1] = Z64], c.buf[c.loc + 1] >>
  ELSE LET s == SfmtGen(c.s)
           w == BlockWords(s)
       IN << [s |-> s, buf |-> [w EXCEPT ![1] = Z64], loc |-> 1], w[1] >>
SfmtRing(r) ==   \* one recurrence step on the ring with read position p
  LET at(j) == r.s[((r.pos + j) % 156) + 1]
  IN [s |-> [r.s EXCEPT ![r.pos + 1] = SfmtRec(at(0), at(122), at(154), at(155))], pos |-> (r.pos + 1) % 156]

\* initialisation by array shared by SFMT (size 624) and dSFMT (size 768); lag = 11
TwF1(x, k) == Mul32(Xor32(x, Shr32(x, 27)), k)
TwInit(size, ks) ==
  LET mid == (size - 11) \div 2
      L == Len(ks)
      count == (IF L + 1 > size THEN L + 1 ELSE size) - 1
      m0 == [i \in 1..size |-> <<35723, 35723>>]
      r0 == TwF1(Xor32(Xor32(m0[1], m0[mid + 1]), m0[size]), <<26125, 25>>)
      a1 == [m0 EXCEPT ![mid + 1] = Add32(@, r0)]
      r1 == Add32(r0, N32(L))
      a2 == [[a1 EXCEPT ![mid + 12] = Add32(@, r1)] EXCEPT ![1] = r1]
      step1(st, add) ==
        LET g(j) == st.a[(j % size) + 1]
            r == TwF1(Xor32(Xor32(g(st.i), g(st.i + mid)), g(st.i + size - 1)), <<26125, 25>>)
            b1 == [st.a EXCEPT ![((st.i + mid) % size) + 1] = Add32(@, r)]
            q == Add32(r, Add32(add, N32(st.i)))
            b2 == [b1 EXCEPT ![((st.i + mid + 11) % size) + 1] = Add32(@, q)]
        IN [a |-> [b2 EXCEPT ![st.i + 1] = q], i |-> (st.i + 1) % size]
      s1 == FoldLeft(LAMBDA st, j : step1(st, IF j <= L THEN ks[j] ELSE Z32), [a |-> a2, i |-> 1], Idx(count))
      step2(st) ==
        LET g(j) == st.a[(j % size) + 1]
            r == TwF1(Add32(Add32(g(st.i), g(st.i + mid)), g(st.i + size - 1)), <<35685, 23896>>)
            b1 == [st.a EXCEPT ![((st.i + mid) % size) + 1] = Xor32(@, r)]
            q == Sub32(r, N32(st.i))
            b2 == [b1 EXCEPT ![((st.i + mid + 11) % size) + 1] = Xor32(@, q)]
        IN [a |-> [b2 EXCEPT ![st.i + 1] = q], i |-> (st.i + 1) % size]
  IN FoldLeft(LAMBDA st, j : step2(st), s1, Idx(size)).a
Parity16(x) == FoldLeft(LAMBDA p, k : (p + (x \div Pow2(k - 1))) % 2, 0, Idx(16))
Parity(ls) == FoldLeft(LAMBDA p, x : (p + Parity16(x)) % 2, 0, ls)
SfmtSeed(ws) ==
  LET a == TwInit(624, ws)
      ok == Parity(And32(a[1], <<1, 0>>) \o And32(a[4], <<59012, 5065>>)) = 1
      b == IF ok THEN a ELSE [a EXCEPT ![1] = Xor32(@, <<1, 0>>)]
  IN [s |-> [i \in 1..156 |-> b[4 * i - 3] \o b[4 * i - 2] \o b[4 * i - 1] \o b[4 * i]],
      buf |-> [i \in 1..312 |-> Z64], loc |-> 312]

------------------------------------------------------------------------------
(* dSFMT19937 : core = [s |-> 191 pairs of W64, u |-> pair (the "lung"),     *)
(* buf |-> 382 W64 (bits of doubles in [1, 2)), loc]                        *)
DsfmtRec(t, b, u) ==   \* << new block, new lung >>
  LET v == << Xor64(Xor64(Shl64(t[1], 19), Swap32(u[2])), b[1]), Xor64(Xor64(Shl64(t[2], 19), Swap32(u[1])), b[2]) >>
  IN << << Xor64(Xor64(Shr64(v[1], 12), And64(v[1], <<64319, 65535, 64255, 15>>)), t[1]),
           Xor64(Xor64(Shr64(v[2], 12), And64(v[2], <<65533, 64656, 65023, 15>>)), t[2]) >>, v >>
DsfmtGen(s, u) ==
  FoldLeft(LAMBDA acc, i :
     LET r == DsfmtRec(s[i], IF i + 117 <= 191 THEN s[i + 117] ELSE acc[1][i - 74], acc[2])
     IN << Append(acc[1], r[1]), r[2] >>, << << >>, u >>, Idx(191))
PairWords(s) == FoldLeft(LAMBDA ws, b : ws \o b, << >>, s)
DsfmtNext(c) ==
  IF c.loc < 382
  THEN << [c EXCEPT !.loc = @ + 1, !.buf[c.loc + 1] = Z64], c.buf[c.loc + 1] >>
  ELSE LET g == DsfmtGen(c.s, c.u)
           w == PairWords(g[1])
       IN << [s |-> g[1], u |-> g[2], buf |-> [w EXCEPT ![1] = Z64], loc |-> 1], w[1] >>
DsfmtRing(r) ==
  LET at(j) == r.s[((r.pos + j) % 191) + 1]
      x == DsfmtRec(at(0), at(117), r.u)
  IN [s |-> [r.s EXCEPT ![r.pos + 1] = x[1]], u |-> x[2], pos |-> (r.pos + 1) % 191]
DsfmtSeed(ws) ==
  LET a == TwInit(768, ws)
      w(i) == a[2 * i - 1] \o a[2 * i]             \* 64-bit word i
      m(x) == << x[1], x[2], x[3], (x[4] % 16) + 16368 >>   \* exponent of [1, 2)
      u0 == << w(383), w(384) >>
      p == Parity(And64(Xor64(u0[1], <<17193, 45871, 18788, 36865>>), <<10368, 3528, 57772, 15748>>)
                  \o And64(Xor64(u0[2], <<31866, 21642, 4780, 15245>>), <<1, 0, 0, 0>>))
  IN [s |-> [i \in 1..191 |-> << m(w(2 * i - 1)), m(w(2 * i)) >>],
      u |-> IF p = 1 THEN u0 ELSE << u0[1], Xor64(u0[2], <<1, 0, 0, 0>>) >>,
      buf |-> [i \in 1..382 |-> Z64], loc |-> 382]

------------------------------------------------------------------------------
(* HC-128 : core = [p, q |-> 512 W32 each, i |-> 0..1008 step index,        *)
(* buf |-> 16 W32 (returned words zero), bi |-> 1..16]                      *)
HcG1(x, y, z) == Add32(Xor32(Rotl32(x, 22), Rotl32(z, 9)), Rotl32(y, 24))
HcG2(x, y, z) == Add32(Xor32(Rotl32(x, 10), Rotl32(z, 23)), Rotl32(y, 8))
HcH(t, x) == Add32(t[(x[1] % 256) + 1], t[(x[2] % 256) + 257])
\* the updated word and the output of step i on table a with the other table b
HcWord(a, i, first) ==
  LET at(k) == a[((i + 512 + k) % 512) + 1]
  IN Add32(at(0), IF first THEN HcG1(at(-3), at(-10), at(1)) ELSE HcG2(at(-3), at(-10), at(1)))
HcStep(a, b, i, first) ==
  LET v == HcWord(a, i, first)
  IN << [a EXCEPT ![i + 1] = v], Xor32(v, HcH(b, a[((i + 500) % 512) + 1])) >>
HcBlock(c) ==
  LET first == c.i < 512
      r == FoldLeft(LAMBDA acc, k :
             LET st == HcStep(acc[1], IF first THEN c.q ELSE c.p, (c.i % 512) + k - 1, first)
             IN << st[1], Append(acc[2], st[2]) >>,
             << IF first THEN c.p ELSE c.q, << >> >>, Idx(16))
  IN [c EXCEPT !.p = IF first THEN r[1] ELSE @, !.q = IF first THEN @ ELSE r[1],
               !.buf = r[2], !.bi = 0, !.i = (@ + 16) % 1024]
HcNext(c) ==
  LET d == IF c.bi = 16 THEN HcBlock(c) ELSE c
  IN << [d EXCEPT !.bi = @ + 1, !.buf[d.bi + 1] = Z32], d.buf[d.bi + 1] >>
HcF1(x) == Xor32(Xor32(Rotl32(x, 25), Rotl32(x, 14)), Shr32(x, 3))
HcF2(x) == Xor32(Xor32(Rotl32(x, 15), Rotl32(x, 13)), Shr32(x, 10))
HcInit(key, iv) ==      \* 4 words each
  LET w0 == key \o key \o iv \o iv
      w == FoldLeft(LAMBDA r, i :    \* i = 1 .. 1264, word index n = 15 + i (0-based)
             Append(r, Add32(Add32(Add32(Add32(HcF2(r[i + 14]), r[i + 9]), HcF1(r[i + 1])), r[i]), N32(15 + i))),
             w0, Idx(1264))
      p0 == SubSeq(w, 257, 768)
      q0 == SubSeq(w, 769, 1280)
      run(a, b, first) == FoldLeft(LAMBDA t, k :
             LET st == HcStep(t, b, k - 1, first) IN [st[1] EXCEPT ![k] = st[2]], a, Idx(512))
      p1 == run(p0, q0, TRUE)
      q1 == run(q0, p1, FALSE)
  IN [p |-> p1, q |-> q1, i |-> 0, buf |-> [k \in 1..16 |-> Z32], bi |-> 16]
=============================================================================
