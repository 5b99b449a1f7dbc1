------------------------------- MODULE RdMC -------------------------------
(***************************************************************************)
(* Two generators on one processor with every pattern of failures: no call *)
(* that succeeds hands out a word that was not delivered, or one that was  *)
(* handed out before, and a call that ran into a failure is refused.       *)
(***************************************************************************)
EXTENDS RdRand, FiniteSets, TLC
CONSTANTS N, Objects, Retries
VARIABLES script, p, gens, handed, twice, wrong, silent, calls
vars == << script, p, gens, handed, twice, wrong, silent, calls >>
Ok(k) == k <= N => script[k]
Init == /\ script \in [1..N -> BOOLEAN] /\ p = 1 /\ gens \in [Objects -> {NewGen(r) : r \in Retries}]
        /\ handed = {} /\ twice = FALSE /\ wrong = FALSE /\ silent = FALSE /\ calls = 0
Call(o, r) ==
  /\ gens' = [gens EXCEPT ![o] = r.s] /\ p' = r.p
  /\ IF r.s.up
     THEN /\ handed' = handed \cup ToSet(r.out)
          /\ twice' = (twice \/ Cardinality(handed') # Cardinality(handed) + Len(r.out))
          /\ wrong' = (wrong \/ \E w \in ToSet(r.out) : w = 0 \/ ~Ok(w))
          \* succeeded although some word asked of the processor never came
          /\ silent' = (silent \/ \E k \in p..(r.p - 1) : k + gens[o].retries <= r.p - 1 /\ \A j \in k..(k + gens[o].retries) : ~Ok(j))
     ELSE UNCHANGED << handed, twice, wrong, silent >>
  /\ UNCHANGED script
Reset(o) == gens' = [gens EXCEPT ![o] = ResetGen(@)] /\ UNCHANGED << script, p, handed, twice, wrong, silent >>
Next == /\ calls < 5 /\ calls' = calls + 1 /\ p <= N
        /\ \E o \in Objects : \/ \E n \in 1..2 : Call(o, Raw(gens[o], p, n, Ok))
                              \/ \E n \in 1..3 : Call(o, Draw(gens[o], p, n, Ok))
                              \/ Reset(o)
Spec == Init /\ [][Next]_vars
NoneInvented == ~wrong
NoneTwice == ~twice
NoneSilent == ~silent
\* a generator without a failure holds only delivered words
GoodBuffer == \A o \in Objects : gens[o].up => \A i \in 1..Len(gens[o].buf) : gens[o].buf[i] > 0
Bounded == \A o \in Objects : gens[o].loc <= BUF
===========================================================================
