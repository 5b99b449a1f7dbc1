------------------------------ MODULE Entropy ------------------------------
(***************************************************************************)
(* Asking the system for entropy: a descriptor is opened, read and closed, *)
(* and each of the three may fail or (read) deliver less than was asked    *)
(* for.  A request names its source: the system, the fallback, or the      *)
(* system with the fallback behind it (auto).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Max,      \* bytes per request
          Calls     \* requests
VARIABLES pc, src, want, got, good, open, res, warned, calls
vars == << pc, src, want, got, good, open, res, warned, calls >>

Init == pc = "idle" /\ src = "system" /\ want = 0 /\ got = 0 /\ good = TRUE /\ open = 0
        /\ res = "none" /\ warned = FALSE /\ calls = 0
Ask == /\ pc = "idle" /\ calls < Calls /\ calls' = calls + 1
       /\ src' \in {"system", "fallback", "auto"} /\ want' \in 0..Max
       /\ got' = 0 /\ good' = TRUE /\ res' = "none" /\ warned' = FALSE /\ UNCHANGED open
       /\ pc' = IF want' = 0 THEN "empty" ELSE IF src' = "fallback" THEN "hash" ELSE "open"
Empty == pc = "empty" /\ res' = "words" /\ pc' = "idle" /\ UNCHANGED << src, want, got, good, open, warned, calls >>
Open == /\ pc = "open"
        /\ \/ open' = open + 1 /\ pc' = "read" /\ UNCHANGED good
           \/ good' = FALSE /\ pc' = "failed" /\ UNCHANGED open
        /\ UNCHANGED << src, want, got, res, warned, calls >>
Read == /\ pc = "read" /\ pc' = "close"
        /\ \E k \in -1..want : got' = (IF k < 0 THEN 0 ELSE k) /\ good' = (k = want)
        /\ UNCHANGED << src, want, open, res, warned, calls >>
Close == /\ pc = "close" /\ open' = open - 1
         /\ \E ok \in BOOLEAN : good' = (good /\ ok)
         /\ pc' = (IF good' THEN "done" ELSE "failed")
         /\ UNCHANGED << src, want, got, res, warned, calls >>
Done == pc = "done" /\ res' = "words" /\ pc' = "idle" /\ UNCHANGED << src, want, got, good, open, warned, calls >>
Failed == /\ pc = "failed"
          /\ IF src = "auto" THEN warned' = TRUE /\ pc' = "hash" /\ UNCHANGED res
                             ELSE res' = "refused" /\ pc' = "idle" /\ UNCHANGED warned
          /\ UNCHANGED << src, want, got, good, open, calls >>
Hash == pc = "hash" /\ res' = "hashed" /\ pc' = "idle" /\ UNCHANGED << src, want, got, good, open, warned, calls >>
Next == Ask \/ Empty \/ Open \/ Read \/ Close \/ Done \/ Failed \/ Hash
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* words that are handed out as the system's were delivered by it, all of them
Delivered == res = "words" => got = want
\* the fallback takes over only where it may, and says so
Announced == res = "hashed" => src = "fallback" \/ (src = "auto" /\ warned)
Refusals == res = "refused" => src = "system" /\ ~good
\* between requests no descriptor stays behind
NoLeak == open \in {0, 1} /\ (pc = "idle" => open = 0)
Ends == (pc # "idle") ~> (pc = "idle")
=============================================================================
