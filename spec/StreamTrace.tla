----------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Traces of bit generator objects.  Each line of the trace is one public  *)
(* operation on one object with everything the caller could observe; the   *)
(* trace is accepted when every line is a step of the machine in Gen.      *)
(***************************************************************************)
EXTENDS Gen, Json, IOUtils, TLC
Accept == INSTANCE States

Trace == ndJsonDeserialize(IOEnv.TRACE)
ASSUME Len(Trace) > 0
VARIABLES objs, l,
          own,       \* object -> the seed sequence it holds (an identifier); several objects may share one
          trees      \* seed sequence -> [q |-> its entropy, key and pool, n |-> children spawned so far]
vars == << objs, l, own, trees >>

Init == objs = << >> /\ l = 1 /\ own = << >> /\ trees = << >>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Put(o, s) == objs' = (o :> s) @@ objs
At(o) == objs[o]
St(e) == [g |-> e.g, core |-> e.core, has |-> e.has, ui |-> e.ui]

\* a new segment of the trace: forget all objects (cheap states)
Reset == Is("reset") /\ objs' = << >>
\* an object enters in a given (arbitrary) state
New == Is("new") /\ Put(E.o, St(E))
\* an object is created by, or re-seeded from, a seed sequence
Seed == Is("seed") /\ Put(E.o, Fresh(E.g, SeedCore(E.g, E.q, E.k)))
\* an object is created from an explicit key and counter
Key == Is("key") /\ Put(E.o, Fresh(E.g, KeyCore(E.g, E.k)))
\* a batch of draws through one view
RunDraws(v, s, out) ==
  FoldLeft(LAMBDA acc, w : IF acc[2] THEN LET r == Draw(v, acc[1]) IN << r[1], r[2] = w >> ELSE acc,
           << s, TRUE >>, out)
Draws == /\ Is("draw")
         /\ LET r == RunDraws(E.v, At(E.o), E.out) IN r[2] /\ Put(E.o, r[1])
\* draws whose values were not looked at
Skip == /\ Is("skip")
        /\ Put(E.o, FoldLeft(LAMBDA s, i : Draw(E.v, s)[1], At(E.o), [i \in 1..E.n |-> i]))
\* the state as read back; from here on in the form in which it was read
Get == Is("get") /\ Same(At(E.o), St(E)) /\ Put(E.o, St(E))
\* the state is assigned (the given value is the assigned one)
Set == Is("set") /\ At(E.o).g = E.g /\ Put(E.o, St(E))
Advance == Is("adv") /\ Put(E.o, Adv(At(E.o), E.a))
\* an advance by nothing may keep a pending half word (the buffered families do)
AdvanceNot == Is("adv") /\ E.a.zero /\ At(E.o).g \in {"cb64", "cb32", "bc"} /\ UNCHANGED objs
Moved(s) == IF "m" \in DOMAIN E THEN JumpBy(s, E.m) ELSE JumpN(s, E.n)
Jump == Is("jump") /\ Put(E.o, Moved(At(E.o)))
\* a new object that starts where src is, moved n jumps; src does not move
Jumped == Is("jumped") /\ Put(E.o, Moved(At(E.src)))
\* a copy, deep copy or pickle round trip
Copy == Is("copy") /\ Put(E.o, At(E.src))
\* an operation that was refused: nothing changes (a Get usually follows)
Refused == Is("refused") /\ UNCHANGED objs
\* an operation with whatever arguments: refused where it must be, then without any effect;
\* where it was accepted the state is assigned next
Try == /\ Is("try") /\ UNCHANGED objs
       /\ LET v == Accept!Verdict(E) IN (E.ok => v # "no") /\ (~E.ok => v # "yes")
\* two observations that have to be the same
Agree == Is("equal") /\ E.a = E.b /\ UNCHANGED objs

\* children of an object's seed sequence: child i is seeded from the sequence's key extended by i,
\* whatever the object did since it was seeded (in one of the configurations E.alts; which one is open)
SpawnKey(q, i) == [q EXCEPT !.spawn = @ \o (IF i < 65536 THEN << << i, 0 >> >> ELSE << << i % 65536, i \div 65536 >> >>)]
Spawn == /\ Is("spawn") /\ E.o \in DOMAIN own
         /\ LET t == trees[own[E.o]]
                kid(j) == E.kids[j]
            IN /\ Len(E.kids) = E.n
               /\ \A j \in 1..E.n : \E a \in ToSet(kid(j).alts) :
                    Same(Fresh(a.g, SeedCore(a.g, SpawnKey(t.q, t.n + j - 1), a.k)), St(kid(j)))
               /\ objs' = FoldLeft(LAMBDA f, k : (k.o :> St(k)) @@ f, objs, E.kids)

\* which seed sequence an object holds
Hold(o, h, t) == own' = (o :> h) @@ own /\ trees' = (h :> t) @@ trees
Forget(o) == own' = [x \in DOMAIN own \ {o} |-> own[x]] /\ UNCHANGED trees
NewTree == l            \* a fresh identifier
Track ==
  CASE E.op = "reset" -> own' = << >> /\ trees' = << >>
    [] E.op = "seed" /\ "share" \in DOMAIN E -> own' = (E.o :> own[E.share]) @@ own /\ UNCHANGED trees
    [] E.op = "seed" /\ "share" \notin DOMAIN E -> IF "raw" \in DOMAIN E.q THEN Forget(E.o) ELSE Hold(E.o, NewTree, [q |-> E.q, n |-> IF "n" \in DOMAIN E THEN E.n ELSE 0])
    [] E.op \in {"new", "key"} -> Forget(E.o)
    [] E.op = "copy" /\ E.kind \in {"copy", "pickle", "deepcopy"} ->
         IF E.src \notin DOMAIN own THEN Forget(E.o)
         ELSE IF E.kind = "copy" THEN own' = (E.o :> own[E.src]) @@ own /\ UNCHANGED trees      \* shared
         ELSE Hold(E.o, NewTree, trees[own[E.src]])
    [] E.op = "jumped" -> IF E.src \notin DOMAIN own THEN Forget(E.o) ELSE Hold(E.o, NewTree, trees[own[E.src]])
    [] E.op = "spawn" -> trees' = [trees EXCEPT ![own[E.o]].n = @ + E.n] /\ UNCHANGED own
    [] OTHER -> UNCHANGED << own, trees >>

Step == Reset \/ New \/ Seed \/ Key \/ Draws \/ Skip \/ Get \/ Set \/ Advance \/ AdvanceNot \/ Jump \/ Jumped \/ Copy \/ Refused \/ Try \/ Agree \/ Spawn
Next == Step /\ Track
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
