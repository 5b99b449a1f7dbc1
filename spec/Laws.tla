--------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Laws of the specification itself, checked by TLC: an advance by d lands *)
(* where d native words lead, advances add up, jumps add up and (on the    *)
(* engines without blocks) commute with draws, the draws are views of one  *)
(* word sequence.  start: an initial state; now: after d native words.     *)
(***************************************************************************)
EXTENDS Gen, TLC
CONSTANT Steps
VARIABLES start, now, d
vars == << start, now, d >>

S(g, c) == [g |-> g, core |-> c, has |-> 0, ui |-> Z32]
k1 == <<4660, 22136, 39612, 57072>>
k2 == <<61303, 1, 65535, 29>>
Lcg(out, post, m) == [s |-> W128(k1, Ones64), inc |-> W128(k2, <<7, 0, 0, 0>>), mult |-> m, dm |-> <<22709, 58589, 8258, 55956>>, post |-> post, out |-> out]
MultA == W128(<<64069, 17309, 19844, 9056>>, <<63045, 40908, 56164, 17285>>)
MultB == W128(Z64, <<22709, 58589, 8258, 55956>>)
W(w, x) == IF w = 64 THEN x ELSE << x[1], x[2] >>
Key(n, w) == [i \in 1..n |-> W(w, IF i % 2 = 1 THEN k1 ELSE k2)]
\* counters about to carry through all words but the last, and through all
Near(n, w) == [i \in 1..n |-> IF i < n THEN W(w, Ones64) ELSE W(w, k2)]
AllOnes(n, w) == [i \in 1..n |-> W(w, Ones64)]
Cb(kind, n, w, ctr) == C!CbInit(kind, n, w, Key(IF kind = "philox" THEN n \div 2 ELSE n, w), ctr)
Starts ==
  { S("pcg32", [s |-> k1, inc |-> <<7, 0, 0, 9>>]), S("pcg32", [s |-> Ones64, inc |-> Ones64]),
    S("lcg128", Lcg("xsl-rr", TRUE, MultA)), S("lcg128", Lcg("dxsm", FALSE, MultB)),
    S("sq64", [key |-> k1, ctr |-> <<65530, 65535, 65535, 65535>>, v |-> 64]), S("sq32", [key |-> k2, ctr |-> <<65530, 65535, 3, 0>>, v |-> 32]),
    S("bc", C!BcInit("speck", << k1, k2, k1, k2 >>, 34, W128(k1, Ones64))),
    S("bc", C!BcInit("speck", << k2, k2, k1, k1 >>, 7, W128(Ones64, <<65531, 65535, 65535, 65535>>))),
    S("bc", C!BcInit("aes", << k1, k2 >>, 0, W128(Ones64, <<65532, 65535, 65535, 65535>>))) }
  \cup { S(IF w = 64 THEN "cb64" ELSE "cb32", Cb(kind, n, w, ctr)) :
           << kind, n, w, ctr >> \in { << kk, nn, ww, IF e THEN Near(nn, ww) ELSE AllOnes(nn, ww) >> :
               kk \in {"philox", "threefry"}, nn \in {2, 4}, ww \in {32, 64}, e \in BOOLEAN } }
LinStarts == { S("xo256", << k1, k2, Ones64, Z64 >>), S("xorop", << k1, k2 >>), S("xoropp", << k2, k1 >>),
               S("xo512", << k1, k2, Ones64, Z64, k1, k1, k2, One64 >>) }

\* distances in the units of the advance operation
Dist(s, n) ==
  CASE s.g \in {"pcg32", "sq64", "sq32"} -> [d |-> N64(n), zero |-> FALSE]
    [] s.g = "lcg128" -> [d |-> W128(Z64, N64(n)), zero |-> FALSE]
    [] s.g = "bc"     -> [d |-> W128(Z64, N64(n \div 2)), rem |-> n % 2, zero |-> FALSE]
    [] OTHER -> LET c == s.core IN
         [ctr |-> FALSE, rem |-> n % c.n, zero |-> FALSE,
          d |-> [i \in 1..c.n |-> IF i = 1 THEN C!NatW(c.w, n \div c.n) ELSE C!ZeroW(c.w)]]
\* the same place: also for block ciphers, where a full buffer and an emptied one differ only in form
BcCanon(c) == IF c.off < 2 * C!BcPer(c) THEN c
              ELSE [c EXCEPT !.ctr = Add128(c.ctr, C!Nat128(C!BcPer(c))), !.off = 0, !.buf = C!BcBlock(c, c.ctr)]
\* the counter of the next word, which of its two words, and whether the buffer is that stretch of the stream
BcPlace(c0) == LET c == BcCanon(c0)
                   per == C!BcPer(c)
                   first == C!Sub128(c.ctr, C!Nat128(per))
                   blk == C!BcBlock(c, first)
               IN << Add128(first, C!Nat128(c.off \div 2)), c.off % 2,
                     \A i \in (c.off + 1)..(2 * per) : c.buf[i] = blk[i] >>
SamePlace(a, b) == \/ Same(a, b)
                   \/ a.g = "bc" /\ b.g = "bc" /\ a.has = b.has /\ BcPlace(a.core) = BcPlace(b.core) /\ BcPlace(a.core)[3]

Init == start \in Starts \cup LinStarts /\ now = start /\ d = 0
Word == d < Steps /\ now' = [now EXCEPT !.core = NextCore(now.g, now.core)[1]] /\ d' = d + 1 /\ UNCHANGED start
Next == Word
Spec == Init /\ [][Next]_vars

AdvanceIsDraws == start \in Starts => SamePlace(Adv(start, Dist(start, d)), now)
AdvanceAdds == start \in Starts =>
   \A a \in {1, 3, 13} : a <= d => SamePlace(Adv(Adv(start, Dist(start, a)), Dist(start, d - a)), now)
Plain == {"pcg32", "lcg128", "sq64", "sq32", "xo256", "xo512", "xorop", "xoropp"}
JumpCommutes == (start.g \in Plain /\ d \in {1, 5}) =>
   JumpN(now, 1) = LET j == JumpN(start, 1) IN [j EXCEPT !.core = FoldLeft(LAMBDA c, i : NextCore(start.g, c)[1], j.core, [i \in 1..d |-> i])]
JumpAdds == d = 0 => JumpN(start, 3) = JumpN(JumpN(start, 1), 2)
\* many jumps at once are the jumps one after another
Many(s, n) == CASE s.g \in {"pcg32", "sq64", "sq32"} -> N64(n)
                [] s.g \in {"lcg128", "bc"} -> W128(Z64, N64(n))
                [] OTHER -> [i \in 1..(s.core.n \div 2) |-> IF i = 1 THEN C!NatW(s.core.w, n) ELSE C!ZeroW(s.core.w)]
JumpsAtOnce == (d \in {0, 3} /\ start \in Starts) => \A n \in {1, 2, 5} : JumpBy(now, Many(now, n)) = JumpN(now, n)
\* a 32-bit draw is half of the word a 64-bit draw would have returned
HalvesMakeAWord == start.g \in Native64 =>
   LET a == D32(now) b == D32(a[1]) c == D64(now)
   IN /\ Join32(b[2], a[2]) = c[2] /\ b[1] = c[1]
      /\ D64(a[1])[2] = D64(c[1])[2] /\ D64(a[1])[1].ui = a[1].ui
DoubleIsTop53 == start.g \in Native64 => DDbl(now) = << D64(now)[1], Shr64(D64(now)[2], 11) >>
=============================================================================
