------------------------------ MODULE RdTrace ------------------------------
(***************************************************************************)
(* Traces of RDRAND objects on a scripted processor.                       *)
(***************************************************************************)
EXTENDS RdRand, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
ASSUME Len(Trace) > 0
VARIABLES objs, p, fails, handed, l
vars == << objs, p, fails, handed, l >>
Init == objs = << >> /\ p = 1 /\ fails = {} /\ handed = {} /\ l = 1
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Ok(k) == k \notin fails
Put(s) == objs' = (E.o :> s) @@ objs
S == objs[E.o]

Reset == Is("reset") /\ objs' = << >> /\ p' = 1 /\ fails' = {} /\ handed' = {}
\* the processor will fail at these instructions (all still to come)
Cpu == /\ Is("cpu") /\ \A i \in 1..Len(E.fail) : E.fail[i] >= p
       /\ fails' = fails \cup ToSet(E.fail) /\ UNCHANGED << objs, p, handed >>
\* a new object (constructed, jumped, copied, from a pickle): nothing in its buffer
New == Is("new") /\ Put(NewGen(E.retries)) /\ UNCHANGED << p, fails, handed >>
Derived == Is("derived") /\ Put(NewGen(objs[E.src].retries)) /\ UNCHANGED << p, fails, handed >>
Retries == Is("retries") /\ Put([S EXCEPT !.retries = E.n]) /\ UNCHANGED << p, fails, handed >>
ResetObj == Is("resetobj") /\ Put(ResetGen(S)) /\ UNCHANGED << p, fails, handed >>
\* a call for n words; E.ok: it returned, E.out: the words as they came out (numbers; 0 for anything else)
Call(r) ==
  /\ IF S.up
     THEN /\ E.ok = r.s.up
          /\ E.ok => (E.p = r.p /\ (E.shown => E.out = r.out))
          /\ Put(r.s)
          /\ handed' = IF E.ok THEN handed \cup ToSet(r.out) ELSE handed
     ELSE \* after a failure: refused, or only words that were delivered and are new
          /\ E.ok => (E.shown /\ \A i \in 1..Len(E.out) :
                        E.out[i] > 0 /\ E.out[i] < E.p /\ Ok(E.out[i]) /\ E.out[i] \notin handed
                        /\ \A j \in 1..(i - 1) : E.out[j] # E.out[i])
          /\ handed' = IF E.ok THEN handed \cup ToSet(E.out) ELSE handed
          /\ UNCHANGED objs
  /\ E.p >= p /\ p' = E.p /\ UNCHANGED fails
RawCall == Is("raw") /\ Call(Raw(S, p, E.n, Ok))
DrawCall == Is("draw") /\ Call(Draw(S, p, E.n, Ok))
\* what the object says of itself
Get == /\ Is("get") /\ E.up = S.up /\ E.success = S.up /\ E.retries = S.retries
       /\ (S.up => E.loc = S.loc) /\ E.loc <= BUF /\ E.p = p
       /\ (S.up /\ S.loc < BUF => E.out = S.buf)
       /\ UNCHANGED << objs, p, fails, handed >>
\* an operation that has to be refused, without touching the processor
Refused == Is("refused") /\ ~E.ok /\ E.p = p /\ UNCHANGED << objs, p, fails, handed >>
Next == Reset \/ Cpu \/ New \/ Derived \/ Retries \/ ResetObj \/ RawCall \/ DrawCall \/ Get \/ Refused
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
