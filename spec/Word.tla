-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* Fixed-width machine words for TLC.  TLC integers are signed 32-bit, so  *)
(* a word is a tuple of 16-bit limbs, least significant limb first:        *)
(*   W32 = <<l0, l1>>      W64 = <<l0, l1, l2, l3>>                        *)
(* and a 128-bit value is a pair [hi |-> W64, lo |-> W64].                 *)
(* All tuples are written out explicitly: TLC evaluates an explicit tuple  *)
(* once, a function constructor again at every application.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

B16 == 65536

\* powers of two 2^0 .. 2^16 as a table (TLC's ^ is slow)
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Pow2(k) == P2[k + 1]

------------------------------------------------------------------------------
(* 64-bit *)
Z64 == <<0, 0, 0, 0>>
One64 == <<1, 0, 0, 0>>
Ones64 == <<65535, 65535, 65535, 65535>>

Xor64(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4]>>
And64(x, y) == <<x[1] & y[1], x[2] & y[2], x[3] & y[3], x[4] & y[4]>>
Or64(x, y)  == <<x[1] | y[1], x[2] | y[2], x[3] | y[3], x[4] | y[4]>>
Not64(x)    == <<65535 - x[1], 65535 - x[2], 65535 - x[3], 65535 - x[4]>>

\* normalise four column sums (each < 2^31 - 2^16) modulo 2^64
Carry64(a, b, c, d) ==
  LET b1 == b + (a \div B16)
      c1 == c + (b1 \div B16)
      d1 == d + (c1 \div B16)
  IN <<a % B16, b1 % B16, c1 % B16, d1 % B16>>

Add64(x, y) == Carry64(x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4])
AddC64(x, y) ==   \* the carry out of x + y : 0 or 1
  (x[4] + y[4] + ((x[3] + y[3] + ((x[2] + y[2] + ((x[1] + y[1]) \div B16)) \div B16)) \div B16)) \div B16
Sub64(x, y) == Carry64(x[1] + (65536 - y[1]), x[2] + (65535 - y[2]), x[3] + (65535 - y[3]), x[4] + (65535 - y[4]))
Inc64(x) == Add64(x, One64)
Neg64(x) == Sub64(Z64, x)

Lt64(x, y) ==
  \/ x[4] < y[4]
  \/ x[4] = y[4] /\ ( \/ x[3] < y[3]
                      \/ x[3] = y[3] /\ ( \/ x[2] < y[2]
                                          \/ x[2] = y[2] /\ x[1] < y[1]))

\* left shift of 16-bit limb pairs: bits entering from the lower limb
ShlL(hi, lo, r) == ((hi * Pow2(r)) % B16) + (lo \div Pow2(16 - r))
ShrL(hi, lo, r) == (lo \div Pow2(r)) + ((hi * Pow2(16 - r)) % B16)

Shl64r(x, r) == IF r = 0 THEN x ELSE
  <<(x[1] * Pow2(r)) % B16, ShlL(x[2], x[1], r), ShlL(x[3], x[2], r), ShlL(x[4], x[3], r)>>
Shl64(x, k) ==
  LET q == k \div 16
      y == CASE q = 0 -> x
             [] q = 1 -> <<0, x[1], x[2], x[3]>>
             [] q = 2 -> <<0, 0, x[1], x[2]>>
             [] q = 3 -> <<0, 0, 0, x[1]>>
             [] OTHER -> Z64
  IN Shl64r(y, k % 16)
Shr64r(x, r) == IF r = 0 THEN x ELSE
  <<ShrL(x[2], x[1], r), ShrL(x[3], x[2], r), ShrL(x[4], x[3], r), x[4] \div Pow2(r)>>
Shr64(x, k) ==
  LET q == k \div 16
      y == CASE q = 0 -> x
             [] q = 1 -> <<x[2], x[3], x[4], 0>>
             [] q = 2 -> <<x[3], x[4], 0, 0>>
             [] q = 3 -> <<x[4], 0, 0, 0>>
             [] OTHER -> Z64
  IN Shr64r(y, k % 16)
Rotl64r(x, r) == IF r = 0 THEN x ELSE
  <<ShlL(x[1], x[4], r), ShlL(x[2], x[1], r), ShlL(x[3], x[2], r), ShlL(x[4], x[3], r)>>
Rotl64(x, k) ==
  LET q == k \div 16
      y == CASE q = 0 -> x
             [] q = 1 -> <<x[4], x[1], x[2], x[3]>>
             [] q = 2 -> <<x[3], x[4], x[1], x[2]>>
             [] q = 3 -> <<x[2], x[3], x[4], x[1]>>
             [] OTHER -> x   \* k = 64
  IN Rotl64r(y, k % 16)
Rotr64(x, k) == Rotl64(x, (64 - k) % 64)

\* one 16x16 product a*b as two column contributions: a*b = PL + 2^16 * PH,
\* PL < 2^25, PH < 2^16 (PL is not reduced)
PL(a, b) == a * (b % 256) + ((a * (b \div 256)) % 256) * 256
PH(a, b) == (a * (b \div 256)) \div 256

Mul64(x, y) ==
  Carry64(PL(x[1], y[1]),
          PH(x[1], y[1]) + PL(x[1], y[2]) + PL(x[2], y[1]),
          PH(x[1], y[2]) + PH(x[2], y[1]) + PL(x[1], y[3]) + PL(x[2], y[2]) + PL(x[3], y[1]),
          PH(x[1], y[3]) + PH(x[2], y[2]) + PH(x[3], y[1])
            + PL(x[1], y[4]) + PL(x[2], y[3]) + PL(x[3], y[2]) + PL(x[4], y[1]))

Lo32(x) == <<x[1], x[2]>>
Hi32(x) == <<x[3], x[4]>>
Join32(hi, lo) == <<lo[1], lo[2], hi[1], hi[2]>>
Swap32(x) == <<x[3], x[4], x[1], x[2]>>
Low(x, m) == x[1] % m              \* x mod m for m dividing 2^16

------------------------------------------------------------------------------
(* full 64 x 64 -> 128 product as <<c0..c7>> limbs *)
Mul128L(x, y) ==
  LET k0 == PL(x[1], y[1])
      k1 == PH(x[1], y[1]) + PL(x[1], y[2]) + PL(x[2], y[1]) + (k0 \div B16)
      k2 == PH(x[1], y[2]) + PH(x[2], y[1]) + PL(x[1], y[3]) + PL(x[2], y[2]) + PL(x[3], y[1]) + (k1 \div B16)
      k3 == PH(x[1], y[3]) + PH(x[2], y[2]) + PH(x[3], y[1])
            + PL(x[1], y[4]) + PL(x[2], y[3]) + PL(x[3], y[2]) + PL(x[4], y[1]) + (k2 \div B16)
      k4 == PH(x[1], y[4]) + PH(x[2], y[3]) + PH(x[3], y[2]) + PH(x[4], y[1])
            + PL(x[2], y[4]) + PL(x[3], y[3]) + PL(x[4], y[2]) + (k3 \div B16)
      k5 == PH(x[2], y[4]) + PH(x[3], y[3]) + PH(x[4], y[2]) + PL(x[3], y[4]) + PL(x[4], y[3]) + (k4 \div B16)
      k6 == PH(x[3], y[4]) + PH(x[4], y[3]) + PL(x[4], y[4]) + (k5 \div B16)
      k7 == PH(x[4], y[4]) + (k6 \div B16)
  IN <<k0 % B16, k1 % B16, k2 % B16, k3 % B16, k4 % B16, k5 % B16, k6 % B16, k7 % B16>>
MulHiLo64(x, y) == LET p == Mul128L(x, y) IN
  [hi |-> <<p[5], p[6], p[7], p[8]>>, lo |-> <<p[1], p[2], p[3], p[4]>>]

------------------------------------------------------------------------------
(* 128-bit *)
W128(hi, lo) == [hi |-> hi, lo |-> lo]
Or128(x, y) == W128(Or64(x.hi, y.hi), Or64(x.lo, y.lo))
Xor128(x, y) == W128(Xor64(x.hi, y.hi), Xor64(x.lo, y.lo))
Z128 == W128(Z64, Z64)
One128 == W128(Z64, One64)
AddC(c) == <<c, 0, 0, 0>>
Add128(x, y) == W128(Add64(Add64(x.hi, y.hi), AddC(AddC64(x.lo, y.lo))), Add64(x.lo, y.lo))
Mul128(x, y) ==
  LET p == MulHiLo64(x.lo, y.lo)
  IN W128(Add64(p.hi, Add64(Mul64(x.hi, y.lo), Mul64(x.lo, y.hi))), p.lo)
Shl128_1(x) == W128(Or64(Shl64(x.hi, 1), <<x.lo[4] \div 32768, 0, 0, 0>>), Shl64(x.lo, 1))
Bit128(x, i) ==   \* bit i (0 = least significant)
  LET w == IF i < 64 THEN x.lo ELSE x.hi
  IN (w[((i % 64) \div 16) + 1] \div Pow2(i % 16)) % 2
Bit64(x, i) == (x[(i \div 16) + 1] \div Pow2(i % 16)) % 2

------------------------------------------------------------------------------
(* 32-bit *)
Z32 == <<0, 0>>
One32 == <<1, 0>>
Ones32 == <<65535, 65535>>
Xor32(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
And32(x, y) == <<x[1] & y[1], x[2] & y[2]>>
Or32(x, y)  == <<x[1] | y[1], x[2] | y[2]>>
Not32(x)    == <<65535 - x[1], 65535 - x[2]>>
Carry32(a, b) == <<a % B16, (b + (a \div B16)) % B16>>
Add32(x, y) == Carry32(x[1] + y[1], x[2] + y[2])
Sub32(x, y) == Carry32(x[1] + (65536 - y[1]), x[2] + (65535 - y[2]))
Inc32(x) == Add32(x, One32)
Shl32r(x, r) == IF r = 0 THEN x ELSE <<(x[1] * Pow2(r)) % B16, ShlL(x[2], x[1], r)>>
Shl32(x, k) == IF k >= 32 THEN Z32 ELSE IF k >= 16 THEN Shl32r(<<0, x[1]>>, k - 16) ELSE Shl32r(x, k)
Shr32r(x, r) == IF r = 0 THEN x ELSE <<ShrL(x[2], x[1], r), x[2] \div Pow2(r)>>
Shr32(x, k) == IF k >= 32 THEN Z32 ELSE IF k >= 16 THEN Shr32r(<<x[2], 0>>, k - 16) ELSE Shr32r(x, k)
Rotl32r(x, r) == IF r = 0 THEN x ELSE <<ShlL(x[1], x[2], r), ShlL(x[2], x[1], r)>>
Rotl32(x, k) == IF k % 32 >= 16 THEN Rotl32r(<<x[2], x[1]>>, (k % 32) - 16) ELSE Rotl32r(x, k % 32)
Rotr32(x, k) == Rotl32(x, (32 - k) % 32)
Mul32(x, y) == Carry32(PL(x[1], y[1]), PH(x[1], y[1]) + PL(x[1], y[2]) + PL(x[2], y[1]))
MulHiLo32(x, y) ==
  LET k0 == PL(x[1], y[1])
      k1 == PH(x[1], y[1]) + PL(x[1], y[2]) + PL(x[2], y[1]) + (k0 \div B16)
      k2 == PH(x[1], y[2]) + PH(x[2], y[1]) + PL(x[2], y[2]) + (k1 \div B16)
      k3 == PH(x[2], y[2]) + (k2 \div B16)
  IN [hi |-> <<k2 % B16, k3 % B16>>, lo |-> <<k0 % B16, k1 % B16>>]
Zext(x) == <<x[1], x[2], 0, 0>>      \* 32 -> 64

\* little-endian bytes of a 32-bit word and back
Bytes32(x) == <<x[1] % 256, x[1] \div 256, x[2] % 256, x[2] \div 256>>
OfBytes32(b0, b1, b2, b3) == <<b0 + 256 * b1, b2 + 256 * b3>>

\* a small natural number as a word
N64(n) == <<n % B16, n \div B16, 0, 0>>
N32(n) == <<n % B16, n \div B16>>
=============================================================================
