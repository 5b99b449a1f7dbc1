--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* One bit generator as a state machine, over all families: the state is   *)
(* [g, core, has, ui] (family, engine state, half-word cache); the         *)
(* operations are the four draws (32 bits, 64 bits, double, raw), advance, *)
(* jump, and seeding from a seed sequence or from a key and a counter.     *)
(***************************************************************************)
EXTENDS Word, SequencesExt
A == INSTANCE Arith
C == INSTANCE Counter
L == INSTANCE Linear
T == INSTANCE Twister
Q == INSTANCE SeedSeq
K == INSTANCE Keys

\* ---- the native word sequence: <<core', W64 or W32>>
NextCore(g, c) ==
  CASE g = "xo256"   -> L!Xo256Next(c)
    [] g = "xo512"   -> L!Xo512Next(c)
    [] g = "xorop"   -> L!XoroPNext(c)
    [] g = "xoropp"  -> L!XoroPPNext(c)
    [] g = "xs1024"  -> L!XsNext(c)
    [] g = "lxm"     -> L!LxmNext(c)
    [] g = "pcg32"   -> A!Pcg32Next(c)
    [] g = "lcg128"  -> A!Lcg128Next(c)
    [] g = "sfc"     -> A!SfcNext(c)
    [] g = "jsf64"   -> A!Jsf64Next(c)
    [] g = "jsf32"   -> A!Jsf32Next(c)
    [] g = "romuq"   -> A!RomuQuadNext(c)
    [] g = "romut"   -> A!RomuTrioNext(c)
    [] g = "tyche"   -> A!TycheNext(c)
    [] g = "tycheo"  -> A!TycheInvNext(c)
    [] g = "efiix"   -> A!EfiixNext(c)
    [] g \in {"cb64", "cb32"} -> C!CbNext(c)
    [] g = "bc"      -> C!BcNext(c)
    [] g = "chacha"  -> C!ChaChaNext(c)
    [] g \in {"sq64", "sq32"} -> C!SqNext(c)
    [] g = "mt"      -> T!MtNext(c)
    [] g = "mt64"    -> T!Mt64Next(c)
    [] g = "sfmt"    -> T!SfmtNext(c)
    [] g = "dsfmt"   -> T!DsfmtNext(c)
    [] g = "hc"      -> T!HcNext(c)

\* word size of the engine, and how words combine
Native64 == {"xo256", "xo512", "xorop", "xoropp", "xs1024", "lxm", "lcg128", "sfc", "jsf64",
             "romuq", "romut", "efiix", "cb64", "bc", "sq64", "mt64", "sfmt"}
HiFirst  == {"pcg32", "jsf32", "tyche", "tycheo", "cb32", "mt"}
LoFirst  == {"hc", "chacha", "sq32"}
Doubles  == {"dsfmt"}                         \* engine words are doubles in [1, 2)
Dbl56    == {"pcg32", "tyche", "tycheo", "sq32", "cb32", "mt"}   \* doubles from 27 + 26 bits
Raw32    == {"pcg32", "jsf32", "cb32", "mt"}
RawCore  == {"dsfmt"}

\* ---- draws: <<state', value>>
D64(s) ==
  LET g == s.g IN
  IF g \in Native64 THEN LET r == NextCore(g, s.core) IN << [s EXCEPT !.core = r[1]], r[2] >>
  ELSE LET r1 == NextCore(g, s.core)
           r2 == NextCore(g, r1[1])
       IN << [s EXCEPT !.core = r2[1]],
             IF g \in HiFirst THEN Join32(r1[2], r2[2])
             ELSE IF g \in LoFirst THEN Join32(r2[2], r1[2])
             ELSE Join32(<< r1[2][2], r1[2][3] >>, << r2[2][2], r2[2][3] >>) >>
D32(s) ==
  LET g == s.g IN
  IF g \in Native64
  THEN IF s.has = 1 THEN << [s EXCEPT !.has = 0, !.ui = Z32], s.ui >>
       ELSE LET r == NextCore(g, s.core)
            IN << [s EXCEPT !.core = r[1], !.has = 1, !.ui = Hi32(r[2])], Lo32(r[2]) >>
  ELSE LET r == NextCore(g, s.core)
       IN << [s EXCEPT !.core = r[1]], IF g \in Doubles THEN << r[2][2], r[2][3] >> ELSE r[2] >>
\* a double in [0, 1) as the integer d * 2^53
DDbl(s) ==
  LET g == s.g IN
  IF g \in Doubles
  THEN LET r == NextCore(g, s.core)
       IN << [s EXCEPT !.core = r[1]], Shl64(<< r[2][1], r[2][2], r[2][3], r[2][4] % 16 >>, 1) >>
  ELSE IF g \in Dbl56
  THEN LET r1 == NextCore(g, s.core)
           r2 == NextCore(g, r1[1])
       IN << [s EXCEPT !.core = r2[1]],
             Add64(Shl64(Zext(Shr32(r1[2], 5)), 26), Zext(Shr32(r2[2], 6))) >>
  ELSE LET r == D64(s) IN << r[1], Shr64(r[2], 11) >>
DRaw(s) ==
  LET g == s.g IN
  IF g \in Raw32 THEN LET r == NextCore(g, s.core) IN << [s EXCEPT !.core = r[1]], Zext(r[2]) >>
  ELSE IF g \in RawCore THEN LET r == NextCore(g, s.core) IN << [s EXCEPT !.core = r[1]], r[2] >>
  ELSE D64(s)
\* what the generators built on top make of these: floats as x * 2^23 (ExtendedGenerator) or
\* x * 2^24 (numpy), long doubles as x * 2^64
DFlt(s, k) == LET r == D32(s) IN << r[1], Shr32(r[2], k) >>
Draw(v, s) == CASE v = "n64" -> D64(s) [] v = "n32" -> D32(s) [] v = "dbl" -> DDbl(s) [] v = "raw" -> DRaw(s)
                [] v = "flt" -> DFlt(s, 9) [] v = "npf" -> DFlt(s, 8) [] v = "ld" -> D64(s)

\* the same place in the same stream
Same(a, b) == \/ a = b
              \/ /\ a.g = b.g /\ a.g \in {"cb64", "cb32"} /\ a.has = b.has /\ a.ui = b.ui
                 /\ a.core.n = b.core.n /\ C!CbCanon(a.core) = C!CbCanon(b.core)
              \/ /\ a.g = "xs1024" /\ b.g = "xs1024" /\ a.has = b.has /\ a.ui = b.ui
                 /\ L!XsWindow(a.core) = L!XsWindow(b.core)      \* the ring may be turned
NoCache(s) == [s EXCEPT !.has = 0, !.ui = Z32]

\* ---- advance; a = the distance in the family's own units (see the harness)
AdvCore(g, c, a) ==
  CASE g = "pcg32"  -> A!Pcg32Advance(c, a.d)
    [] g = "lcg128" -> A!Lcg128Advance(c, a.d)
    [] g \in {"sq64", "sq32"} -> C!SqAdvance(c, a.d)
    [] g \in {"cb64", "cb32"} -> IF a.ctr THEN C!CbAdvanceCtr(c, a.d) ELSE C!CbAdvance(c, a.d, a.rem)
    [] g = "bc"     -> C!BcAdvance(c, a.d, a.rem)
Adv(s, a) == NoCache([s EXCEPT !.core = AdvCore(s.g, s.core, a)])

\* ---- jump
JumpCore(g, c) ==
  CASE g = "xo256"  -> L!Xo256Jump(c)
    [] g = "xo512"  -> L!Xo512Jump(c)
    [] g = "xorop"  -> L!XoroPJump(c)
    [] g = "xoropp" -> L!XoroPPJump(c)
    [] g = "xs1024" -> L!XsJump(c)
    [] g = "lxm"    -> L!LxmJump(c)
    [] g = "pcg32"  -> A!Pcg32Advance(c, A!JumpStep64)
    [] g = "lcg128" -> A!Lcg128Advance(c, A!JumpStep128)
    [] g \in {"sq64", "sq32"} -> C!SqAdvance(c, <<31765, 32586, 31161, 40503>>)
    [] g \in {"cb64", "cb32"} -> C!CbAdvanceCtr(c, C!HalfMP(c.w, c.n))
    [] g = "bc"     -> C!BcAdvance(c, W128(Z64, <<0, 0, 0, 32768>>), 0)
\* families whose jump adds a fixed distance: m jumps at once, m a count of any size (in words of the family)
JumpAddCore(g, c, m) ==
  CASE g = "pcg32"  -> A!Pcg32Advance(c, Mul64(A!JumpStep64, m))
    [] g = "lcg128" -> A!Lcg128Advance(c, Mul128(A!JumpStep128, m))
    [] g \in {"sq64", "sq32"} -> C!SqAdvance(c, Mul64(<<31765, 32586, 31161, 40503>>, m))
    [] g \in {"cb64", "cb32"} -> C!CbAdvanceCtr(c, [i \in 1..c.n |-> IF 2 * i <= c.n THEN C!ZeroW(c.w) ELSE m[i - (c.n \div 2)]])
    [] g = "bc"     -> C!BcAdvance(c, Mul128(W128(Z64, <<0, 0, 0, 32768>>), m), 0)
JumpBy(s, m) == NoCache([s EXCEPT !.core = JumpAddCore(s.g, s.core, m)])
JumpN(s, n) == NoCache([s EXCEPT !.core = FoldLeft(LAMBDA c, i : JumpCore(s.g, c), s.core, [i \in 1..n |-> i])])

\* ---- seeding: q = [ent, spawn, pool], k = the constructor's configuration
\* (families with a configurable shape carry it in k)
SeedCore(g, q, k) ==
  LET w64(n) == Q!State64(q, n)
      w32(n) == Q!State32(q, n)
  IN CASE g \in {"xo256", "xo512", "xorop", "xoropp"} ->
            w64(CASE g = "xo256" -> 4 [] g = "xo512" -> 8 [] OTHER -> 2)
       [] g = "xs1024" -> [s |-> w64(16), p |-> 0]
       [] g = "lxm"    -> LET w == w64(5) IN [x |-> << w[1], w[2], w[3], w[4] >>, l |-> w[5], b |-> k.b]
       [] g = "pcg32"  -> LET w == w64(2) IN A!Pcg32Seed(w[1], IF k.incset THEN k.inc ELSE w[2])
       [] g = "lcg128" -> LET w == w64(IF k.incset THEN 2 ELSE 4)
                          IN A!Lcg128Seed([s |-> Z128, inc |-> Z128, mult |-> k.mult, dm |-> k.dm, post |-> k.post, out |-> k.out],
                                          W128(w[1], w[2]), IF k.incset THEN k.inc ELSE W128(w[3], w[4]))
       [] g = "sfc"    -> LET n == 3 + (IF k.wset THEN 0 ELSE 1) + (IF k.kset THEN 0 ELSE 1)
                              w == w64(n)
                          IN A!SfcSeed(w, IF k.wset THEN k.w ELSE w[4],
                                       IF k.kset THEN k.k ELSE Or64(w[n], One64))
       [] g = "jsf64"  -> A!Jsf64Seed(k.p, k.q, k.r, w64(k.n))
       [] g = "jsf32"  -> A!Jsf32Seed(k.p, k.q, k.r, w32(k.n))
       [] g \in {"romuq", "romut"} -> A!RomuSeed(w64(4), g = "romuq")
       [] g \in {"tyche", "tycheo"} ->
            LET w == w32(IF k.idxset THEN 2 ELSE 3) IN A!TycheSeed(w, IF k.idxset THEN k.idx ELSE w[3], g = "tyche")
       [] g = "efiix"  -> A!EfiixSeed(w64(4))
       [] g \in {"cb64", "cb32"} -> C!CbInit(k.kind, k.n, k.w, C!CbSeedKey(k.kind, k.n, k.w, w64), k.ctr)
       [] g = "bc"     -> C!BcInit(k.kind, w64(IF k.kind = "aes" THEN 2 ELSE 4), k.rounds, k.ctr)
       [] g = "chacha" -> C!ChaChaInit(w64(4), k.ctr, k.rounds)
       [] g \in {"sq64", "sq32"} -> [key |-> K!SquaresKey(w64(20)), ctr |-> k.ctr, v |-> IF g = "sq64" THEN 64 ELSE 32]
       [] g = "mt"     -> IF k.numpy THEN T!MtSeedNumpy(w32(624)) ELSE T!MtSeed(w32(624))
       [] g = "mt64"   -> T!Mt64Seed(w64(312))
       [] g = "sfmt"   -> T!SfmtSeed(w32(624))
       [] g = "dsfmt"  -> T!DsfmtSeed(w32(764))
       [] g = "hc"     -> LET w == w32(8) IN T!HcInit(SubSeq(w, 1, 4), SubSeq(w, 5, 8))
\* an explicit key (and counter): nothing is derived
KeyCore(g, k) ==
  CASE g \in {"cb64", "cb32"} -> C!CbInit(k.kind, k.n, k.w, k.key, k.ctr)
    [] g = "bc"     -> C!BcInit(k.kind, k.key, k.rounds, k.ctr)
    [] g = "chacha" -> C!ChaChaInit(k.key, k.ctr, k.rounds)
    [] g \in {"sq64", "sq32"} -> [key |-> k.key, ctr |-> k.ctr, v |-> IF g = "sq64" THEN 64 ELSE 32]
    [] g = "hc"     -> T!HcInit(SubSeq(k.key, 1, 4), SubSeq(k.key, 5, 8))
Fresh(g, c) == [g |-> g, core |-> c, has |-> 0, ui |-> Z32]
=============================================================================
