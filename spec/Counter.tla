------------------------------- MODULE Counter -------------------------------
(***************************************************************************)
(* Counter-based generators: Philox, ThreeFry, AES-CTR, SPECK-CTR, ChaCha, *)
(* Squares.  Every XNext(core) returns <<core', word>>.  Buffers keep only *)
(* the words that are still to be returned: positions already returned are *)
(* zero, so two cores are equal exactly when their futures are.            *)
(***************************************************************************)
EXTENDS Word, SequencesExt

LOCAL Idx(n) == [i \in 1..n |-> i]

\* ---- words of either width: w = 64 or 32 ---------------------------------
ZeroW(w) == IF w = 64 THEN Z64 ELSE Z32
AddW(w, x, y) == IF w = 64 THEN Add64(x, y) ELSE Add32(x, y)
XorW(w, x, y) == IF w = 64 THEN Xor64(x, y) ELSE Xor32(x, y)
RotlW(w, x, k) == IF w = 64 THEN Rotl64(x, k) ELSE Rotl32(x, k)
MulHiLoW(w, x, y) == IF w = 64 THEN MulHiLo64(x, y) ELSE MulHiLo32(x, y)
NatW(w, n) == IF w = 64 THEN N64(n) ELSE N32(n)
CarryW(w, x, y) == IF w = 64 THEN AddC64(x, y)
                   ELSE (x[2] + y[2] + ((x[1] + y[1]) \div B16)) \div B16

\* a multiword little-endian natural number: <<sum, carry>> of x + y + carry-in
AddMP(w, x, y) ==
  LET n == Len(x)
      r == FoldLeft(LAMBDA acc, i :
             LET s == AddW(w, x[i], y[i])
                 t == AddW(w, s, NatW(w, acc[2]))
                 c == CarryW(w, x[i], y[i]) + CarryW(w, s, NatW(w, acc[2]))
             IN << Append(acc[1], t), c >>, << <<>>, 0 >>, Idx(n))
  IN r[1]                               \* modulo 2^(w*n)
OneMP(w, n) == [i \in 1..n |-> IF i = 1 THEN NatW(w, 1) ELSE ZeroW(w)]
IncMP(w, x) == AddMP(w, x, OneMP(w, Len(x)))

------------------------------------------------------------------------------
(* Philox n x w, 10 rounds.  core = [n, w, key, ctr, buf, pos]             *)
PhiloxBump(w, k) ==
  IF w = 64 THEN IF Len(k) = 1 THEN << Add64(k[1], <<31765, 32586, 31161, 40503>>) >>
                 ELSE << Add64(k[1], <<31765, 32586, 31161, 40503>>), Add64(k[2], <<42811, 33994, 44677, 47975>>) >>
  ELSE IF Len(k) = 1 THEN << Add32(k[1], <<31161, 40503>>) >>
       ELSE << Add32(k[1], <<31161, 40503>>), Add32(k[2], <<44677, 47975>>) >>
PhiloxRound(n, w, c, k) ==
  IF n = 2
  THEN LET p == MulHiLoW(w, IF w = 64 THEN <<28307, 45518, 17415, 53943>> ELSE <<53651, 53846>>, c[1])
       IN << XorW(w, XorW(w, p.hi, k[1]), c[2]), p.lo >>
  ELSE LET p0 == MulHiLoW(w, IF w = 64 THEN <<27795, 57676, 18190, 53991>> ELSE <<8019, 53841>>, c[1])
           p1 == MulHiLoW(w, IF w = 64 THEN <<4439, 38162, 33379, 51802>> ELSE <<36183, 52638>>, c[3])
       IN << XorW(w, XorW(w, p1.hi, c[2]), k[1]), p1.lo,
             XorW(w, XorW(w, p0.hi, c[4]), k[2]), p0.lo >>
PhiloxBlock(n, w, ctr, key) ==
  FoldLeft(LAMBDA acc, i : << PhiloxRound(n, w, acc[1], acc[2]), PhiloxBump(w, acc[2]) >>,
           << ctr, key >>, Idx(10))[1]

(* ThreeFry n x w, 20 rounds *)
TfRot(n, w) ==
  CASE n = 4 /\ w = 64 -> << <<14, 16>>, <<52, 57>>, <<23, 40>>, <<5, 37>>, <<25, 33>>, <<46, 12>>, <<58, 22>>, <<32, 32>> >>
    [] n = 4 /\ w = 32 -> << <<10, 26>>, <<11, 21>>, <<13, 27>>, <<23, 5>>, <<6, 20>>, <<17, 11>>, <<25, 10>>, <<18, 20>> >>
    [] n = 2 /\ w = 64 -> << <<16>>, <<42>>, <<12>>, <<31>>, <<16>>, <<32>>, <<24>>, <<21>> >>
    [] OTHER           -> << <<13>>, <<15>>, <<26>>, <<6>>, <<17>>, <<29>>, <<16>>, <<24>> >>
TfMix(n, w, x, r) ==      \* round r = 0, 1, ...
  LET rot == TfRot(n, w)[(r % 8) + 1]
  IN IF n = 2
     THEN LET a == AddW(w, x[1], x[2])
          IN << a, XorW(w, RotlW(w, x[2], rot[1]), a) >>
     ELSE IF r % 2 = 0
     THEN LET a == AddW(w, x[1], x[2])
              c == AddW(w, x[3], x[4])
          IN << a, XorW(w, RotlW(w, x[2], rot[1]), a), c, XorW(w, RotlW(w, x[4], rot[2]), c) >>
     ELSE LET a == AddW(w, x[1], x[4])
              c == AddW(w, x[3], x[2])
          IN << a, XorW(w, RotlW(w, x[2], rot[2]), c), c, XorW(w, RotlW(w, x[4], rot[1]), a) >>
TfKs(w, key) == Append(key, FoldLeft(LAMBDA acc, k : XorW(w, acc, k),
                       IF w = 64 THEN <<6690, 43516, 7130, 7121>> ELSE <<7130, 7121>>, key))
TfInject(n, w, x, ks, j) ==
  IF n = 2 THEN << AddW(w, x[1], ks[(j % 3) + 1]), AddW(w, AddW(w, x[2], ks[((j + 1) % 3) + 1]), NatW(w, j)) >>
  ELSE << AddW(w, x[1], ks[(j % 5) + 1]), AddW(w, x[2], ks[((j + 1) % 5) + 1]),
          AddW(w, x[3], ks[((j + 2) % 5) + 1]), AddW(w, AddW(w, x[4], ks[((j + 3) % 5) + 1]), NatW(w, j)) >>
TfBlock(n, w, ctr, key) ==
  LET ks == TfKs(w, key)
  IN FoldLeft(LAMBDA x, i :
       LET y == TfMix(n, w, x, i - 1)
       IN IF i % 4 = 0 THEN TfInject(n, w, y, ks, i \div 4) ELSE y,
       TfInject(n, w, ctr, ks, 0), Idx(20))

\* the shared counter/buffer machine.  kind = "philox" | "threefry"
CbBlock(c, ctr) == IF c.kind = "philox" THEN PhiloxBlock(c.n, c.w, ctr, c.key) ELSE TfBlock(c.n, c.w, ctr, c.key)
CbNext(c) ==
  IF c.pos < c.n
  THEN << [c EXCEPT !.pos = @ + 1, !.buf[c.pos + 1] = ZeroW(c.w)], c.buf[c.pos + 1] >>
  ELSE LET ctr == IncMP(c.w, c.ctr)
           out == CbBlock(c, ctr)
       IN << [c EXCEPT !.ctr = ctr, !.buf = [out EXCEPT ![1] = ZeroW(c.w)], !.pos = 1], out[1] >>
CbEmpty(c) == [c EXCEPT !.buf = [i \in 1..c.n |-> ZeroW(c.w)], !.pos = c.n]
\* an emptied buffer and an untouched one are the same place in the stream
CbCanon(c) == IF c.pos < c.n THEN c
              ELSE LET ctr == IncMP(c.w, c.ctr) IN [c EXCEPT !.ctr = ctr, !.buf = CbBlock(c, ctr), !.pos = 0]
CbInit(kind, n, w, key, ctr) ==
  [kind |-> kind, n |-> n, w |-> w, key |-> key, ctr |-> ctr, buf |-> [i \in 1..n |-> ZeroW(w)], pos |-> n]
\* advance the counter by delta blocks; the block at the new counter is discarded
CbAdvanceCtr(c, delta) == CbEmpty([c EXCEPT !.ctr = AddMP(c.w, c.ctr, delta)])
\* skip delta native words: delta = blocks * n + rem
CbAdvance(c, blocks, rem) ==
  LET p == c.pos + rem                        \* 1 .. 2n-1
      ctr == AddMP(c.w, c.ctr, IF p > c.n THEN IncMP(c.w, blocks) ELSE blocks)
      pos == IF p > c.n THEN p - c.n ELSE p
      out == CbBlock(c, ctr)
  IN IF pos = c.n THEN CbEmpty([c EXCEPT !.ctr = ctr])
     ELSE [c EXCEPT !.ctr = ctr, !.pos = pos,
                    !.buf = [i \in 1..c.n |-> IF i <= pos THEN ZeroW(c.w) ELSE out[i]]]

------------------------------------------------------------------------------
(* 128-bit block ciphers in counter mode: core = [key.., ctr, buf, off].   *)
(* A block of B consecutive counters gives 2B words; ctr is the counter    *)
(* of the next block, buf the current one with returned words zeroed, off  *)
(* the number of words already returned (2B: none left).                   *)
Nat128(n) == W128(Z64, N64(n))
Sub128(x, y) == LET d == Sub64(x.lo, y.lo)
                IN W128(Sub64(Sub64(x.hi, y.hi), AddC(IF Lt64(x.lo, y.lo) THEN 1 ELSE 0)), d)

\* AES-128 on bytes (sequence of 16, column major as in FIPS 197)
Bytes64(x) == << x[1] % 256, x[1] \div 256, x[2] % 256, x[2] \div 256,
                 x[3] % 256, x[3] \div 256, x[4] % 256, x[4] \div 256 >>
OfBytes64(b, o) == << b[o + 1] + 256 * b[o + 2], b[o + 3] + 256 * b[o + 4],
                      b[o + 5] + 256 * b[o + 6], b[o + 7] + 256 * b[o + 8] >>
XT(b) == IF b < 128 THEN 2 * b ELSE ((2 * b) - 256) ^^ 27
\* GF(2^8) product, inverse and the S-box computed from its definition
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0 ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(XT(a), b \div 2)
GInv(a) == IF a = 0 THEN 0 ELSE CHOOSE x \in 1..255 : GMul(a, x) = 1
Rot8(b, k) == ((b * Pow2(k)) % 256) + (b \div Pow2(8 - k))
SubByte(b) == LET v == GInv(b) IN ((((v ^^ Rot8(v, 1)) ^^ Rot8(v, 2)) ^^ Rot8(v, 3)) ^^ Rot8(v, 4)) ^^ 99
SBoxF == [i \in 0..255 |-> SubByte(i)]
\* the same as a table (position b + 1); equality with SBoxF is an assumption checked in SpecTest
SBox == <<99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118, 202, 130, 201, 125, 250, 89, 71, 240, 173, 212, 162, 175, 156, 164, 114, 192, 183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21, 4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117, 9, 131, 44, 26, 27, 110, 90, 160, 82, 59, 214, 179, 41, 227, 47, 132, 83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207, 208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168, 81, 163, 64, 143, 146, 157, 56, 245, 188, 182, 218, 33, 16, 255, 243, 210, 205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115, 96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219, 224, 50, 58, 10, 73, 6, 36, 92, 194, 211, 172, 98, 145, 149, 228, 121, 231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8, 186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138, 112, 62, 181, 102, 72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158, 225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223, 140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22>>
S(b) == SBox[b + 1]
\* one round on bytes: SubBytes, ShiftRows, MixColumns, AddRoundKey
SR == << 1, 6, 11, 16, 5, 10, 15, 4, 9, 14, 3, 8, 13, 2, 7, 12 >>
AesSubShift(b) == << S(b[1]), S(b[6]), S(b[11]), S(b[16]), S(b[5]), S(b[10]), S(b[15]), S(b[4]),
                     S(b[9]), S(b[14]), S(b[3]), S(b[8]), S(b[13]), S(b[2]), S(b[7]), S(b[12]) >>
Col(a, b, c, d) == (((XT(a) ^^ XT(b)) ^^ b) ^^ c) ^^ d
AesMix(b) == << Col(b[1], b[2], b[3], b[4]), Col(b[2], b[3], b[4], b[1]), Col(b[3], b[4], b[1], b[2]), Col(b[4], b[1], b[2], b[3]),
                Col(b[5], b[6], b[7], b[8]), Col(b[6], b[7], b[8], b[5]), Col(b[7], b[8], b[5], b[6]), Col(b[8], b[5], b[6], b[7]),
                Col(b[9], b[10], b[11], b[12]), Col(b[10], b[11], b[12], b[9]), Col(b[11], b[12], b[9], b[10]), Col(b[12], b[9], b[10], b[11]),
                Col(b[13], b[14], b[15], b[16]), Col(b[14], b[15], b[16], b[13]), Col(b[15], b[16], b[13], b[14]), Col(b[16], b[13], b[14], b[15]) >>
AesAdd(b, k) == << b[1] ^^ k[1], b[2] ^^ k[2], b[3] ^^ k[3], b[4] ^^ k[4], b[5] ^^ k[5], b[6] ^^ k[6], b[7] ^^ k[7], b[8] ^^ k[8],
                   b[9] ^^ k[9], b[10] ^^ k[10], b[11] ^^ k[11], b[12] ^^ k[12], b[13] ^^ k[13], b[14] ^^ k[14], b[15] ^^ k[15], b[16] ^^ k[16] >>
\* rk = 11 round keys as byte sequences
AesEncrypt(pt, rk) ==
  LET m == FoldLeft(LAMBDA b, r : AesAdd(AesMix(AesSubShift(b)), rk[r + 1]), AesAdd(pt, rk[1]), Idx(9))
  IN AesAdd(AesSubShift(m), rk[11])
RCon == << 1, 2, 4, 8, 16, 32, 64, 128, 27, 54 >>
AesNextKey(k, rc) ==
  LET a == (k[1] ^^ S(k[14])) ^^ rc
      b == k[2] ^^ S(k[15])
      c == k[3] ^^ S(k[16])
      d == k[4] ^^ S(k[13])
      e == << a, b, c, d >>
      f == << k[5] ^^ a, k[6] ^^ b, k[7] ^^ c, k[8] ^^ d >>
      g == << k[9] ^^ f[1], k[10] ^^ f[2], k[11] ^^ f[3], k[12] ^^ f[4] >>
  IN e \o f \o g \o << k[13] ^^ g[1], k[14] ^^ g[2], k[15] ^^ g[3], k[16] ^^ g[4] >>
AesExpand(key) == FoldLeft(LAMBDA ks, i : Append(ks, AesNextKey(ks[i], RCon[i])), << key >>, Idx(10))
RkOfWords(ws) == FoldLeft(LAMBDA ks, i : Append(ks, Bytes64(ws[2 * i - 1]) \o Bytes64(ws[2 * i])), << >>, Idx(11))
WordsOfRk(rk) == FoldLeft(LAMBDA ws, k : ws \o << OfBytes64(k, 0), OfBytes64(k, 8) >>, << >>, rk)
AesExpandWords(k2) == WordsOfRk(AesExpand(Bytes64(k2[1]) \o Bytes64(k2[2])))
AesCtr(rk, ctr) == LET o == AesEncrypt(Bytes64(ctr.lo) \o Bytes64(ctr.hi), rk) IN << OfBytes64(o, 0), OfBytes64(o, 8) >>

\* SPECK-128/256: rk = round keys (one 64-bit word each)
SpeckStep(x, y, k) == LET a == Xor64(Add64(Rotr64(x, 8), y), k) IN << a, Xor64(Rotl64(y, 3), a) >>
SpeckEncrypt(ctr, rk, rounds) ==
  LET r == FoldLeft(LAMBDA acc, i : SpeckStep(acc[1], acc[2], rk[i]), << ctr.hi, ctr.lo >>, Idx(rounds))
  IN << r[2], r[1] >>
\* key schedule of the 4-word key <<A, B, C, D>> (A least significant)
SpeckExpand(key) ==
  FoldLeft(LAMBDA acc, i :
     LET j == ((i - 1) % 3) + 2          \* which of B, C, D takes part
         st == SpeckStep(acc.l[j], acc.l[1], N64(i - 1))
     IN [rk |-> Append(acc.rk, st[2]),
         l |-> [[acc.l EXCEPT ![j] = st[1]] EXCEPT ![1] = st[2]]],
     [rk |-> << key[1] >>, l |-> key], Idx(33)).rk

\* kind "aes": blk = 4 counters per block; "speck": blk = 6
BcPer(c) == IF c.kind = "aes" THEN 4 ELSE 6
BcEnc(c, ctr) == IF c.kind = "aes" THEN AesCtr(RkOfWords(c.rk), ctr) ELSE SpeckEncrypt(ctr, c.rk, c.rounds)
BcBlock(c, ctr) ==
  FoldLeft(LAMBDA acc, i : acc \o BcEnc(c, Add128(ctr, Nat128(i - 1))), << >>, Idx(BcPer(c)))
ZeroBuf(n) == [i \in 1..n |-> Z64]
BcNext(c) ==
  LET m == 2 * BcPer(c)
  IN IF c.off < m
     THEN << [c EXCEPT !.off = @ + 1, !.buf[c.off + 1] = Z64], c.buf[c.off + 1] >>
     ELSE LET out == BcBlock(c, c.ctr)
          IN << [c EXCEPT !.ctr = Add128(c.ctr, Nat128(BcPer(c))), !.off = 1, !.buf = [out EXCEPT ![1] = Z64]], out[1] >>
\* skip delta = 2 * half + odd words (half: W128)
BcAdvance(c, half, odd) ==
  LET per == BcPer(c)
      full == c.off = 2 * per
      ctr0 == IF full THEN Add128(c.ctr, Nat128(per)) ELSE c.ctr   \* counter after the current block
      off == (IF full THEN 0 ELSE c.off) + odd
      ctr1 == Add128(ctr0, half)
      out == BcBlock(c, Sub128(ctr1, Nat128(per)))
  IN [c EXCEPT !.ctr = ctr1, !.off = off,
               !.buf = [i \in 1..(2 * per) |-> IF i <= off THEN Z64 ELSE out[i]]]

------------------------------------------------------------------------------
(* ChaCha: core = [key (8 W32), 128-bit word counter ctr, rounds,*)
(* block (16 W32)]: ctr counts 32-bit words; the block in force is          *)
(* number ctr / 16.  Words already returned are zero.                      *)
QR(x, a, b, c, d) ==
  LET a1 == Add32(x[a], x[b])    d1 == Rotl32(Xor32(x[d], a1), 16)
      c1 == Add32(x[c], d1)      b1 == Rotl32(Xor32(x[b], c1), 12)
      a2 == Add32(a1, b1)        d2 == Rotl32(Xor32(d1, a2), 8)
      c2 == Add32(c1, d2)        b2 == Rotl32(Xor32(b1, c2), 7)
  IN [x EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
ChaChaDouble(x) ==
  QR(QR(QR(QR(QR(QR(QR(QR(x, 1, 5, 9, 13), 2, 6, 10, 14), 3, 7, 11, 15), 4, 8, 12, 16),
     1, 6, 11, 16), 2, 7, 12, 13), 3, 8, 9, 14), 4, 5, 10, 15)
Div16_128(x) == W128(Shr64(x.hi, 4), Or64(Shr64(x.lo, 4), Shl64(x.hi, 60)))
ChaChaBlock(key, ctr, rounds) ==
  LET n == Div16_128(ctr)
      in0 == << <<30821, 24944>>, <<25710, 13088>>, <<11570, 31074>>, <<25972, 27424>>, key[1], key[2], key[3], key[4], key[5], key[6], key[7], key[8],
                Lo32(n.lo), Hi32(n.lo), Lo32(n.hi), Hi32(n.hi) >>
      z == FoldLeft(LAMBDA x, i : ChaChaDouble(x), in0, Idx((rounds + 1) \div 2))
  IN [i \in 1..16 |-> Add32(z[i], in0[i])]
ChaChaNext(c) ==
  LET i == c.ctr.lo[1] % 16
      blk == IF i = 0 THEN ChaChaBlock(c.key, c.ctr, c.rounds) ELSE c.block
  IN << [c EXCEPT !.ctr = Add128(c.ctr, One128), !.block = [blk EXCEPT ![i + 1] = Z32]], blk[i + 1] >>
\* positions 1..k of the block are spent (a full block at a boundary)
ChaChaBlank(b, k) == [i \in 1..16 |-> IF i <= k THEN Z32 ELSE b[i]]
ChaChaAt(key, ctr, rounds) ==
  LET i == ctr.lo[1] % 16
  IN [key |-> key, ctr |-> ctr, rounds |-> rounds,
      block |-> IF i = 0 THEN [j \in 1..16 |-> Z32] ELSE ChaChaBlank(ChaChaBlock(key, ctr, rounds), i)]

------------------------------------------------------------------------------
(* Squares: core = [key, ctr, v |-> 32 | 64] *)
SqMix(x, a) == LET y == Add64(Mul64(x, x), a) IN Swap32(y)
Squares32(key, ctr) ==
  LET y == Mul64(ctr, key)
      z == Add64(y, key)
      x3 == SqMix(SqMix(SqMix(y, y), z), y)
  IN Hi32(Add64(Mul64(x3, x3), z))
Squares64(key, ctr) ==
  LET y == Mul64(ctr, key)
      z == Add64(y, key)
      x3 == SqMix(SqMix(SqMix(y, y), z), y)
      t == Add64(Mul64(x3, x3), z)
      x4 == Swap32(t)
      u == Add64(Mul64(x4, x4), y)
  IN Xor64(t, Zext(Hi32(u)))
SqNext(c) ==
  << [c EXCEPT !.ctr = Inc64(@)], IF c.v = 32 THEN Squares32(c.key, c.ctr) ELSE Squares64(c.key, c.ctr) >>
SqAdvance(c, delta) == [c EXCEPT !.ctr = Add64(@, delta)]
SqStep == <<31765, 32586, 31161, 40503>>

------------------------------------------------------------------------------
(* Initial states *)
\* key words drawn from a seed sequence; W(n) = n 64-bit words of it
CbSeedKey(kind, n, w, W(_)) ==
  LET bits == IF kind = "philox" THEN (n \div 2) * w ELSE n * w
      ws == W(IF bits < 64 THEN 1 ELSE bits \div 64)
      split == FoldLeft(LAMBDA acc, x : acc \o << Lo32(x), Hi32(x) >>, << >>, ws)
  IN IF w = 64 THEN ws ELSE SubSeq(split, 1, bits \div 32)
HalfMP(w, n) == [i \in 1..n |-> IF i = (n \div 2) + 1 THEN NatW(w, 1) ELSE ZeroW(w)]   \* 2^(w*n/2)
BcInit(kind, key, rounds, ctr) ==
  IF kind = "aes" THEN [kind |-> kind, rk |-> AesExpandWords(key), ctr |-> ctr, buf |-> ZeroBuf(8), off |-> 8]
  ELSE [kind |-> kind, rk |-> SpeckExpand(key), rounds |-> rounds, ctr |-> ctr, buf |-> ZeroBuf(12), off |-> 12]
ChaChaInit(key64, ctr, rounds) ==
  ChaChaAt(FoldLeft(LAMBDA acc, x : acc \o << Lo32(x), Hi32(x) >>, << >>, key64), ctr, rounds)
=============================================================================
