------------------------------ MODULE SeedTrace ------------------------------
(***************************************************************************)
(* Traces of seed sequences: construction from any spelling of entropy,    *)
(* generated words, spawning, rebuilding.  A node is [ent, key, pool, n];  *)
(* key is a sequence of integers, each given by its 32-bit words; n, the   *)
(* count of children, is one such word.                                    *)
(***************************************************************************)
EXTENDS SeedSeq, Json, IOUtils, TLC, Integers
Trace == ndJsonDeserialize(IOEnv.TRACE)
ASSUME Len(Trace) > 0
VARIABLES node, l
vars == << node, l >>
Init == node = << >> /\ l = 1
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Put(o, x) == node' = (o :> x) @@ node

Flat(key) == FoldLeft(LAMBDA a, x : a \o x, << >>, key)
Q(x) == [ent |-> x.ent, spawn |-> Flat(x.key), pool |-> x.pool]
\* the number of children, as a 32-bit word: counts above 2^31 are reachable by construction
Plus(n, k) == LET a == n[1] + (k % 65536)
                  b == n[2] + (k \div 65536) + (a \div 65536)
              IN << a % 65536, b >>
Nil == << 0, 0 >>

Reset == Is("reset") /\ node' = << >>
Make == Is("mk") /\ Put(E.o, [ent |-> E.ent, key |-> E.key, pool |-> E.pool, n |-> E.n])
\* what the object says about itself
View == /\ Is("view") /\ UNCHANGED node
        /\ node[E.o] = [ent |-> E.ent, key |-> E.key, pool |-> E.pool, n |-> E.n]
Gen == /\ Is("gen") /\ UNCHANGED node
       /\ Len(E.out) = E.n
       /\ E.out = IF E.bits = 64 THEN State64(Q(node[E.o]), E.n) ELSE State32(Q(node[E.o]), E.n)
\* E.kids: << id, key, pool, n, ent >> of every child, in the order returned
Spawn == /\ Is("spawn")
         /\ LET p == node[E.o] IN
            /\ Len(E.kids) = E.n
            /\ \A i \in 1..E.n :
                 [ent |-> E.kids[i].ent, key |-> E.kids[i].key, pool |-> E.kids[i].pool, n |-> E.kids[i].n]
                   = [ent |-> p.ent, key |-> Append(p.key, << Plus(p.n, i - 1) >>), pool |-> p.pool, n |-> Nil]
            /\ node' = FoldLeft(LAMBDA f, i : (E.kids[i].o :> [ent |-> p.ent, key |-> Append(p.key, << Plus(p.n, i - 1) >>), pool |-> p.pool, n |-> Nil]) @@ f,
                                (E.o :> [p EXCEPT !.n = Plus(@, E.n)]) @@ node, Idx(E.n))
Copy == Is("copy") /\ Put(E.o, node[E.src])
\* an argument that is not a non-negative integer or a sequence of such is rejected
Refused == Is("refused") /\ UNCHANGED node

Next == Reset \/ Make \/ View \/ Gen \/ Spawn \/ Copy \/ Refused
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
