------------------------------ MODULE EntTrace ------------------------------
(***************************************************************************)
(* Traces of random_entropy on a scripted source, and of seed_by_array.    *)
(* The source's byte number k is Byte(k); pos bytes were delivered so far. *)
(***************************************************************************)
EXTENDS Word, SequencesExt, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
ASSUME Len(Trace) > 0
VARIABLES pos, l
vars == << pos, l >>
Init == pos = 0 /\ l = 1
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Byte(k) == (k * 7 + (k \div 256) * 13) % 256

Reset == Is("reset") /\ pos' = 0
\* E.src; E.n words asked for; E.ok: returned; E.warned; E.faults: calls of the source that failed or fell short;
\* E.used: calls of the source; E.pos: bytes delivered by now; E.open: descriptors left open;
\* E.out: the bytes returned when they came from the source; E.set: no word of a fallback is zero
Clean == E.open = 0 /\ E.bad = 0 /\ E.pos >= pos
FromSource == /\ ~E.warned /\ E.src # "fallback" /\ E.shape
              /\ Len(E.out) = 4 * E.n /\ E.pos >= pos + 4 * E.n
              /\ \A i \in 1..Len(E.out) : E.out[i] = Byte(pos + i - 1)
FromHash == E.shape /\ E.set /\ (E.src = "fallback" \/ (E.src = "auto" /\ E.warned /\ E.faults > 0))
Entropy == /\ Is("entropy") /\ Clean /\ pos' = E.pos
           /\ (E.src = "fallback" => E.used = 0 /\ ~E.warned)
           /\ IF ~E.ok THEN E.src = "system" /\ E.faults > 0
              ELSE IF E.n = 0 THEN E.shape
              ELSE IF E.src = "fallback" \/ E.warned THEN FromHash ELSE FromSource
\* arguments that have to be refused
Refused == Is("refused") /\ ~E.ok /\ E.used = 0 /\ UNCHANGED pos

\* SplitMix64
Gamma == <<31765, 32586, 31161, 40503>>
SplitMix(s) ==
  LET a == Add64(s, Gamma)
      b == Mul64(Xor64(a, Shr64(a, 30)), <<58809, 7396, 18285, 48984>>)
      c == Mul64(Xor64(b, Shr64(b, 27)), <<4587, 4913, 18875, 38096>>)
  IN << a, Xor64(c, Shr64(c, 31)) >>
\* n words from the seeds: every seed enters the state before the word of its place
Split(seeds, n) ==
  FoldLeft(LAMBDA acc, i :
     LET r == SplitMix(IF i <= Len(seeds) THEN Xor64(acc[1], seeds[i]) ELSE acc[1])
     IN << r[1], [acc[2] EXCEPT ![((i - 1) % n) + 1] = r[2]] >>,
     << Z64, [i \in 1..n |-> Z64] >>, [i \in 1..(IF n > Len(seeds) THEN n ELSE Len(seeds)) |-> i])[2]
SeedByArray == /\ Is("split") /\ UNCHANGED pos
               /\ IF E.bad THEN ~E.ok ELSE E.ok /\ (E.n > 0 => E.out = Split(E.seeds, E.n)) /\ Len(E.out) = E.n
Next == Reset \/ Entropy \/ Refused \/ SeedByArray
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
