------------------------------- MODULE SeedSeq -------------------------------
(* The seed sequence hash: entropy words + spawn key -> pool -> state words *)
EXTENDS Word, SequencesExt
Idx(n) == [i \in 1..n |-> i]
XSh(x) == << x[1] ^^ x[2], x[2] >>         \* x ^ (x >> 16)
\* << value, next hash constant >>
HashMix(v, h) == LET h1 == Mul32(h, <<34933, 37662>>) IN << XSh(Mul32(Xor32(v, h), h1)), h1 >>
MixW(x, y) == XSh(Sub32(Mul32(<<63965, 51713>>, x), Mul32(<<63253, 18803>>, y)))
\* entropy as the sequence that is mixed: padded when a spawn key follows
Assemble(run, spawn, pool) ==
  (IF Len(spawn) > 0 /\ Len(run) < pool
   THEN run \o [i \in 1..(pool - Len(run)) |-> Z32] ELSE run) \o spawn
Pool(ent, n) ==
  LET a == FoldLeft(LAMBDA acc, i :
             LET r == HashMix(IF i <= Len(ent) THEN ent[i] ELSE Z32, acc[2])
             IN << Append(acc[1], r[1]), r[2] >>, << << >>, <<55269, 17328>> >>, Idx(n))
      b == FoldLeft(LAMBDA acc, src :
             FoldLeft(LAMBDA ac2, dst :
               IF src = dst THEN ac2
               ELSE LET r == HashMix(ac2[1][src], ac2[2])
                    IN << [ac2[1] EXCEPT ![dst] = MixW(@, r[1])], r[2] >>, acc, Idx(n)), a, Idx(n))
      c == FoldLeft(LAMBDA acc, k :
             FoldLeft(LAMBDA ac2, dst :
               LET r == HashMix(ent[n + k], ac2[2])
               IN << [ac2[1] EXCEPT ![dst] = MixW(@, r[1])], r[2] >>, acc, Idx(n)),
             b, Idx(IF Len(ent) > n THEN Len(ent) - n ELSE 0))
  IN c[1]
\* n 32-bit words out of a pool
Words32(pool, n) ==
  FoldLeft(LAMBDA acc, i :
     LET h1 == Mul32(acc[2], <<36333, 22771>>)
         v == XSh(Mul32(Xor32(pool[((i - 1) % Len(pool)) + 1], acc[2]), h1))
     IN << Append(acc[1], v), h1 >>, << << >>, <<63965, 35665>> >>, Idx(n))[1]
Words64(pool, n) == LET w == Words32(pool, 2 * n) IN [i \in 1..n |-> w[2 * i - 1] \o w[2 * i]]
\* seq = [ent, spawn, pool], or [raw] for a sequence of the user's own whose words are given
Given(q) == "raw" \in DOMAIN q
State32(q, n) == IF Given(q) THEN SubSeq(q.raw, 1, n) ELSE Words32(Pool(Assemble(q.ent, q.spawn, q.pool), q.pool), n)
State64(q, n) == IF Given(q) THEN [i \in 1..n |-> q.raw[2 * i - 1] \o q.raw[2 * i]]
                 ELSE Words64(Pool(Assemble(q.ent, q.spawn, q.pool), q.pool), n)
=============================================================================
