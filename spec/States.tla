-------------------------------- MODULE States --------------------------------
(***************************************************************************)
(* Which values a generator accepts: the entries a state dictionary must   *)
(* have (kind, size, range), and the arguments the operations take.        *)
(* Values are given by descriptors: k (kind), and for numbers neg, bits    *)
(* (length in binary), v (the value if small, otherwise 2^30), frac; for   *)
(* arrays dim, n and the extremes of the elements in neg, bits, frac.      *)
(* A verdict is "yes" (must be accepted), "no" (must be refused) or "any"  *)
(* (the documentation leaves it open).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Arr(n, bits) == [t |-> "arr", n |-> n, bits |-> bits]
Reals(n) == [t |-> "reals", n |-> n]
Wide(bits) == [t |-> "int", bits |-> bits]
Pos(lo, hi, step) == [t |-> "pos", lo |-> lo, hi |-> hi, step |-> step]
Names(S) == [t |-> "names", s |-> S]
Flag == [t |-> "flag"]
Free == [t |-> "free"]
Opt(c) == [t |-> "opt", c |-> c]
OrNone(c) == [t |-> "ornone", c |-> c]

RECURSIVE Field(_, _)
Field(c, x) ==
  CASE c.t = "opt" -> IF x.k = "missing" THEN "any" ELSE Field(c.c, x)
    [] c.t = "ornone" -> IF x.k = "none" THEN "any" ELSE Field(c.c, x)
    [] x.k = "missing" -> "no"
    [] c.t = "free" -> "any"
    [] x.k \in {"none", "object"} -> "no"
    [] c.t = "arr" -> IF x.k # "arr" THEN "no"
                      ELSE IF x.dim # 1 \/ x.n # c.n \/ x.neg \/ x.bits > c.bits THEN "no"
                      ELSE IF x.frac THEN "any" ELSE "yes"
    [] c.t = "reals" -> IF x.k # "arr" \/ x.dim # 1 \/ x.n # c.n THEN "no" ELSE "any"
    [] c.t = "names" -> IF x.k = "str" /\ x.s \in c.s THEN "yes" ELSE "no"
    [] x.k = "str" -> "no"
    [] x.k = "arr" -> IF x.n = 1 THEN "any" ELSE "no"
    [] c.t = "flag" -> IF x.v \in {0, 1} /\ ~x.neg /\ ~x.frac THEN "yes" ELSE "any"
    [] c.t = "int" -> IF x.neg \/ x.bits > c.bits THEN "no" ELSE IF x.frac THEN "any" ELSE "yes"
    [] c.t = "pos" -> IF x.neg \/ x.v < c.lo \/ x.v > c.hi \/ x.v % c.step # 0 THEN "no" ELSE IF x.frac THEN "any" ELSE "yes"

Half == << << "has_uint32", Flag >>, << "uinteger", Wide(32) >> >>

NumOf(f, p, def) == IF p \in DOMAIN f /\ f[p].k = "int" /\ ~f[p].neg THEN f[p].v ELSE def
CounterBased(f, philox) ==
  LET n == NumOf(f, "number", 4)
      w == NumOf(f, "width", 64)
  IN << << "number", Opt(Pos(2, 4, 2)) >>, << "width", Opt(Pos(32, 64, 32)) >>, << "state.counter", Arr(n, w) >>,
        << "state.key", Arr(IF philox THEN n \div 2 ELSE n, w) >>, << "buffer", Arr(n, w) >>, << "buffer_pos", Pos(0, 4, 1) >> >> \o Half

Pcg == << << "state.state", Wide(128) >>, << "state.inc", Wide(128) >> >> \o Half
PcgNames == {"xsl-rr", "1.0", "dxsm", "cm-dxsm", "2.0", "dxsm-128"}

\* the entries of the state of a class; f is the dictionary offered
Schema(cls, f) ==
  CASE cls = "Xoshiro256" -> << << "s", Arr(4, 64) >> >> \o Half
    [] cls = "Xoshiro512" -> << << "s", Arr(8, 64) >> >> \o Half
    [] cls = "Xoroshiro128" -> << << "s", Arr(2, 64) >>, << "plusplus", Opt(Free) >> >> \o Half
    [] cls = "Xorshift1024" -> << << "state.s", Arr(16, 64) >>, << "state.p", Pos(0, 15, 1) >> >> \o Half
    [] cls = "LXM" -> << << "state.x", Arr(4, 64) >>, << "state.lcg_state", Wide(64) >>, << "state.b", Wide(64) >> >> \o Half
    [] cls = "PCG32" -> << << "state.state", Wide(64) >>, << "state.inc", Wide(64) >> >>
    [] cls = "PCG64" -> << << "variant", Opt(Names(PcgNames)) >> >> \o Pcg
    [] cls = "PCG64DXSM" -> Pcg
    [] cls = "LCG128Mix" -> << << "state.multiplier", Wide(128) >>, << "state.dxsm_multiplier", Wide(64) >>, << "state.post", Free >>,
                               << "state.output_func", Names({"xsl-rr", "dxsm", "murmur3", "upper", "lower"}) >> >> \o Pcg
    [] cls = "SFC64" -> << << "state.a", Wide(64) >>, << "state.b", Wide(64) >>, << "state.c", Wide(64) >>, << "state.w", Wide(64) >>, << "state.k", Wide(64) >> >> \o Half
    [] cls = "JSF" -> LET w == NumOf(f, "size", 64)
                      IN << << "size", Pos(32, 64, 32) >>, << "seed_size", Pos(1, 3, 1) >>,
                            << "state.a", Wide(w) >>, << "state.b", Wide(w) >>, << "state.c", Wide(w) >>, << "state.d", Wide(w) >>,
                            << "state.p", OrNone(Pos(0, w - 1, 1)) >>, << "state.q", OrNone(Pos(0, w - 1, 1)) >>, << "state.r", OrNone(Pos(0, w - 1, 1)) >> >> \o Half
    [] cls = "Romu" -> << << "state.w", Wide(64) >>, << "state.x", Wide(64) >>, << "state.y", Wide(64) >>, << "state.z", Wide(64) >>,
                          << "state.variant", Names({"quad", "trio"}) >> >> \o Half
    [] cls = "Tyche" -> << << "state.a", Wide(32) >>, << "state.b", Wide(32) >>, << "state.c", Wide(32) >>, << "state.d", Wide(32) >>, << "state.original", Free >> >>
    [] cls = "EFIIX64" -> << << "state.indirection_table", Arr(16, 64) >>, << "state.iteration_table", Arr(32, 64) >>,
                             << "state.i", Wide(64) >>, << "state.a", Wide(64) >>, << "state.b", Wide(64) >>, << "state.c", Wide(64) >> >> \o Half
    [] cls = "Philox" -> CounterBased(f, TRUE)
    [] cls = "ThreeFry" -> CounterBased(f, FALSE)
    [] cls = "AESCounter" -> << << "s.state", Arr(64, 8) >>, << "s.seed", Arr(22, 64) >>, << "s.counter", Arr(8, 64) >>, << "s.offset", Pos(0, 64, 8) >> >> \o Half
    [] cls = "SPECK128" -> << << "state.ctr", Arr(12, 64) >>, << "state.buffer", Arr(12, 64) >>, << "state.round_key", Arr(68, 64) >>,
                              << "state.offset", Pos(0, 96, 8) >>, << "state.rounds", Pos(1, 34, 1) >> >> \o Half
    [] cls = "ChaCha" -> << << "state.block", Arr(16, 32) >>, << "state.keysetup", Arr(8, 32) >>, << "state.ctr", Arr(2, 64) >>, << "state.rounds", Pos(2, 1073741822, 2) >> >>
    [] cls = "Squares" -> << << "state.key", Wide(64) >>, << "state.counter", Wide(64) >>, << "variant", Pos(32, 64, 32) >> >> \o Half
    [] cls = "HC128" -> << << "state.p", Arr(512, 32) >>, << "state.q", Arr(512, 32) >>, << "state.hc_idx", Pos(0, 1008, 16) >>,
                           << "state.buffer", Arr(16, 32) >>, << "state.buffer_idx", Pos(0, 16, 1) >> >>
    [] cls = "MT19937" -> << << "state.key", Arr(624, 32) >>, << "state.pos", Pos(0, 624, 1) >> >>
    [] cls = "MT64" -> << << "state.key", Arr(312, 64) >>, << "state.pos", Pos(0, 312, 1) >> >> \o Half
    [] cls = "SFMT" -> << << "state.state", Arr(624, 32) >>, << "state.idx", Pos(0, 624, 1) >>, << "buffered_uint64", Arr(312, 64) >>, << "buffer_loc", Pos(0, 312, 1) >> >> \o Half
    [] cls = "DSFMT" -> << << "state.state", Arr(384, 64) >>, << "state.idx", Pos(0, 382, 1) >>, << "buffered_uniforms", Reals(382) >>, << "buffer_loc", Pos(0, 382, 1) >> >>

Worst(vs) == IF "no" \in vs THEN "no" ELSE IF "any" \in vs THEN "any" ELSE "yes"

\* d: whole ("dict" or not), name ("own", "other" or "missing"), f (path |-> descriptor)
StateVerdict(cls, d) ==
  IF d.whole # "dict" \/ d.name # "own" THEN "no"
  ELSE LET s == Schema(cls, d.f)
       IN Worst({ Field(s[i][2], IF s[i][1] \in DOMAIN d.f THEN d.f[s[i][1]] ELSE [k |-> "missing"]) : i \in 1..Len(s) })

----
\* ---- arguments

Num(x) == x.k = "int"
\* one dimension of a requested shape
Extent(x) == IF ~Num(x) \/ x.neg \/ x.frac THEN "no" ELSE IF x.v > 1000000 THEN "any" ELSE "yes"
Size(a) == IF a.k = "none" THEN "yes" ELSE IF a.k = "tuple" THEN Worst({ Extent(a.items[i]) : i \in 1..Len(a.items) } \cup {"yes"})
           ELSE IF a.k = "int" THEN Extent(a) ELSE "no"
\* entropy: nothing, a non-negative integer, or arrays and nested sequences of these
RECURSIVE Entropy(_)
Entropy(a) == CASE a.k = "none" -> "yes"
                [] a.k = "int" -> IF a.neg \/ a.frac THEN "no" ELSE "yes"
                [] a.k = "tuple" -> Worst({ IF a.items[i].k = "none" THEN "no" ELSE Entropy(a.items[i]) : i \in 1..Len(a.items) } \cup {"yes"})
                [] a.k = "seq" -> IF a.raises THEN "no" ELSE "yes"
                [] OTHER -> "no"
\* an explicit value of at most bits bits
Value(a, bits) == IF a.k = "none" THEN "yes" ELSE IF ~Num(a) \/ a.neg \/ a.bits > bits \/ a.frac THEN "no" ELSE "yes"
Distance(a) == IF ~Num(a) THEN "no" ELSE IF a.frac \/ a.neg THEN "any" ELSE "yes"
Step(a) == IF ~Num(a) THEN "no" ELSE IF a.frac \/ a.neg THEN "any" ELSE "yes"

Draw(what, a) ==
  CASE what = "uintegers" -> Worst({ Size(a.size), IF a.bits \in {32, 64} THEN "yes" ELSE "no" })
    [] what = "random" -> Worst({ Size(a.size), IF a.dtype \in {"float64", "float32", "longdouble"} THEN "yes" ELSE "no",
                                  IF ~a.out.given THEN "yes"
                                  ELSE IF ~a.out.array \/ a.out.dtype # a.dtype \/ ~a.out.plain \/ (a.size.k # "none" /\ ~a.out.fits) THEN "no" ELSE "yes" })
    [] what = "raw" -> Size(a.size)
    \* facts about the parameters of a matrix or complex draw, each of which must hold
    [] what \in {"multivariate_normal", "complex_normal", "multivariate_complex_normal", "wishart", "standard_wishart"} ->
         Worst({ IF a[x] THEN "yes" ELSE "no" : x \in DOMAIN a })

Verdict(e) ==
  CASE e.what = "state" -> StateVerdict(e.cls, e.a)
    [] e.what = "seed" -> Worst({ Entropy(e.a.seed) } \cup { Value(e.a.more[x].a, e.a.more[x].bits) : x \in DOMAIN e.a.more }
                                \cup { IF "key" \in DOMAIN e.a.more /\ e.a.seed.k # "none" THEN IF e.cls = "Squares" THEN "any" ELSE "no" ELSE "yes" })
    [] e.what = "advance" -> Step(e.a)
    [] e.what \in {"jump", "jumped"} -> Distance(e.a)
    [] e.what = "draw" -> Draw(e.a.what, e.a.a)
=============================================================================
