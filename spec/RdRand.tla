------------------------------- MODULE RdRand -------------------------------
(***************************************************************************)
(* The hardware entropy generator.  The processor executes instructions    *)
(* number 1, 2, ...; Ok(k) tells whether the k-th delivers a word (known   *)
(* by its number) or fails.  A generator tries an instruction again up to  *)
(* retries times.  Words for the function table come from a buffer of BUF  *)
(* words, filled at once; random_raw asks the processor directly.          *)
(*   s = [buf |-> words by number, 0 for one that was not delivered,       *)
(*        loc |-> words used of it, up |-> no failure so far, retries]     *)
(* Operators return [s, p (next instruction), out (word numbers)].         *)
(* A call is refused exactly when up is FALSE afterwards.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT BUF

Rep(n) == [i \in 1..n |-> i]
NewGen(retries) == [buf |-> << >>, loc |-> BUF, up |-> TRUE, retries |-> retries]
\* one word, with the retries it takes: <<delivered, next instruction, number>>
RECURSIVE Try(_, _, _, _)
Try(p, left, ok(_), dummy) ==
  IF left = 0 THEN << FALSE, p, 0 >> ELSE IF ok(p) THEN << TRUE, p + 1, p >> ELSE Try(p + 1, left - 1, ok, dummy)
One(s, p, ok(_)) == Try(p, s.retries + 1, ok, 0)

Raw(s0, p0, n, ok(_)) ==
  FoldLeft(LAMBDA a, i : LET t == One(s0, a.p, ok)
                         IN [s |-> [a.s EXCEPT !.up = @ /\ t[1]], p |-> t[2], out |-> Append(a.out, t[3])],
           [s |-> s0, p |-> p0, out |-> << >>], Rep(n))
Fill(s0, p0, ok(_)) ==
  LET f == FoldLeft(LAMBDA a, i : LET t == One(s0, a.p, ok)
                                  IN [b |-> Append(a.b, t[3]), up |-> a.up /\ t[1], p |-> t[2]],
                    [b |-> << >>, up |-> TRUE, p |-> p0], Rep(BUF))
  IN [s |-> [s0 EXCEPT !.buf = f.b, !.loc = 0, !.up = @ /\ f.up], p |-> f.p]
\* a draw of n words through the function table
Draw(s0, p0, n, ok(_)) ==
  FoldLeft(LAMBDA a, i :
     LET f == IF a.s.loc < BUF THEN [s |-> a.s, p |-> a.p] ELSE Fill(a.s, a.p, ok)
     IN [s |-> [f.s EXCEPT !.loc = @ + 1], p |-> f.p, out |-> Append(a.out, f.s.buf[f.s.loc + 1])],
     [s |-> s0, p |-> p0, out |-> << >>], Rep(n))
\* a failed generator that is reset starts with an empty buffer; a good one is left alone
ResetGen(s) == IF s.up THEN s ELSE [s EXCEPT !.up = TRUE, !.loc = BUF, !.buf = << >>]
=============================================================================
