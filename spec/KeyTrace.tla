------------------------------ MODULE KeyTrace -------------------------------
(***************************************************************************)
(* Generated Squares keys and SFC64 Weyl increments.                       *)
(***************************************************************************)
EXTENDS StreamTrace, FiniteSets
\* the first n keys of the sampler, repetitions left out when unique ones are asked for
RECURSIVE FirstN(_, _, _, _)
FirstN(ws, st, n, acc) ==
  IF Len(acc) = n THEN acc
  ELSE LET r == K!KeyDigits(ws, st)
           k == K!OfDigits(r[1])
       IN FirstN(ws, r[2], n, IF \E i \in 1..Len(acc) : acc[i] = k THEN acc ELSE Append(acc, k))
GenKeys ==
        /\ Is("keys") /\ UNCHANGED objs
        /\ Len(E.out) = E.n
        /\ \A i \in 1..E.n : K!WellFormed(K!DigitsOf(E.out[i]))
        /\ LET ws == Q!State64(E.q, E.words)
           IN E.out = IF E.unique THEN FirstN(ws, K!Start, E.n, << >>) ELSE K!KeyBatch(ws, K!Start, E.n)[1]
        /\ E.unique => Cardinality({E.out[i] : i \in 1..E.n}) = E.n
\* documented: no digit of the lower half is zero
KeyRule == Is("keyrule") /\ UNCHANGED objs /\ \A i \in 1..Len(E.out) : K!NoZero(K!DigitsOf(E.out[i]))
Ones16(x) == FoldLeft(LAMBDA n, i : n + ((x \div Pow2(i)) % 2), 0, [i \in 1..16 |-> i - 1])
Ones(x) == Ones16(x[1]) + Ones16(x[2]) + Ones16(x[3]) + Ones16(x[4])
\* different odd values with lo..hi bits set; the words used come from the generator's own stream
Weyl == /\ Is("weyl")
        /\ Len(E.out) = E.n
        /\ \A i \in 1..E.n : E.out[i][1] % 2 = 1 /\ Ones(E.out[i]) >= E.lo /\ Ones(E.out[i]) <= E.hi
        /\ Cardinality({E.out[i] : i \in 1..E.n}) = E.n
        /\ At(E.o).g = E.g
        /\ E.core = FoldLeft(LAMBDA c, i : NextCore(E.g, c)[1], At(E.o).core, [i \in 1..E.used |-> i])
        /\ Put(E.o, St(E))
KNext == \/ Next
         \/ (GenKeys \/ KeyRule \/ Weyl) /\ UNCHANGED << own, trees >>
KSpec == Init /\ [][KNext]_vars
=============================================================================
