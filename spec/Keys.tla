--------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Squares keys drawn from a seed sequence.  Random bits are taken, low    *)
(* bits first, from 64-bit words; what is left of a word that is too short *)
(* for a request is dropped.  st = [i |-> word index, loc |-> bits used].  *)
(***************************************************************************)
EXTENDS Word, SequencesExt
Bits(ws, st, n) ==          \* << value, st' >>
  LET s == IF st.loc + n > 64 THEN [i |-> st.i + 1, loc |-> 0] ELSE st
  IN << Shr64(ws[s.i], s.loc)[1] % Pow2(n), [s EXCEPT !.loc = @ + n] >>
RECURSIVE Interval(_, _, _)
Interval(ws, st, max) ==    \* uniform in 0..max-1 by rejection
  IF max = 1 THEN << 0, st >>
  ELSE LET n == IF max = 2 THEN 1 ELSE IF max < 4 THEN 2 ELSE IF max < 8 THEN 3 ELSE 4
           r == Bits(ws, st, n)
       IN IF r[1] < max THEN r ELSE Interval(ws, r[2], max)
Shuffle(ws, st) ==          \* of 0..15: << array, st' >>
  FoldLeft(LAMBDA acc, i :
     LET r == Interval(ws, acc[2], 17 - i)
         j == i + r[1]
         a == acc[1]
     IN << [[a EXCEPT ![i] = a[j]] EXCEPT ![j] = a[i]], r[2] >>,
     << [k \in 1..16 |-> k - 1], st >>, [i \in 1..15 |-> i])
\* the first digit is made odd; the digit that was displaced takes the old value
MakeOdd(a) ==
  IF a[1] % 2 = 1 THEN a
  ELSE [k \in 1..16 |-> IF k = 1 THEN a[1] + 1 ELSE IF k <= 8 /\ a[k] = a[1] + 1 THEN a[1] ELSE a[k]]
RECURSIVE Digit(_, _, _)
Digit(ws, st, prev) ==      \* non-zero and different from its predecessor
  LET r == Bits(ws, st, 4) IN IF r[1] = 0 \/ r[1] = prev THEN Digit(ws, r[2], prev) ELSE r
\* << 16 hexadecimal digits, st' >>
KeyDigits(ws, st) ==
  LET sh == Shuffle(ws, st)
      lo == SubSeq(MakeOdd(sh[1]), 1, 8)
  IN FoldLeft(LAMBDA acc, i : LET r == Digit(ws, acc[2], acc[1][Len(acc[1])]) IN << Append(acc[1], r[1]), r[2] >>,
              << lo, sh[2] >>, [i \in 1..8 |-> i])
OfDigits(d) == << d[1] + 16 * d[2] + 256 * d[3] + 4096 * d[4], d[5] + 16 * d[6] + 256 * d[7] + 4096 * d[8],
                  d[9] + 16 * d[10] + 256 * d[11] + 4096 * d[12], d[13] + 16 * d[14] + 256 * d[15] + 4096 * d[16] >>
DigitsOf(x) == [k \in 1..16 |-> (x[((k - 1) \div 4) + 1] \div Pow2(4 * ((k - 1) % 4))) % 16]
Start == [i |-> 1, loc |-> 0]
\* n keys, not necessarily different: << keys, st' >>
KeyBatch(ws, st, n) ==
  FoldLeft(LAMBDA acc, i : LET r == KeyDigits(ws, acc[2]) IN << Append(acc[1], OfDigits(r[1])), r[2] >>,
           << << >>, st >>, [i \in 1..n |-> i])
SquaresKey(ws) == OfDigits(KeyDigits(ws, Start)[1])

\* the promised structure of a key
WellFormed(d) ==
  /\ d[1] % 2 = 1
  /\ \A i, j \in 1..8 : i # j => d[i] # d[j]
  /\ \A i \in 9..16 : d[i] # 0 /\ d[i] # d[i - 1]
NoZero(d) == \A i \in 1..8 : d[i] # 0
=============================================================================
