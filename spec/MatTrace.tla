------------------------------ MODULE MatTrace ------------------------------
(***************************************************************************)
(* Matrix and complex draws of ExtendedGenerator.  Each line of the trace  *)
(* is one call: its arguments as arrays (shape and values), the variates   *)
(* found on the stream at that point (the tape: standard normals, and      *)
(* square roots of chi-squares for the large Wishart draws), the result,   *)
(* and whether the stream afterwards stands exactly behind the tape.       *)
(* The specification decides the shape, which variates are consumed and in *)
(* which order, which parameters each element uses, and the values.        *)
(*                                                                         *)
(* Reals are fixed point with scale 2^14.  Arrays are [s |-> shape,        *)
(* d |-> flat values in C order], complex ones interleaved.  A covariance  *)
(* comes with a factor (fac): the linear map the library was observed to   *)
(* apply in a scalar call; F' F has to be the covariance.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
ASSUME Len(Trace) > 0
VARIABLE l
Init == l = 1
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1

------------------------------------------------------------------------------
(* fixed point *)
One == 16384
Absv(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Mul(a, b) == (((a \div 256) * b) \div 64) + (((a % 256) * b) \div 16384)
Near(a, b, tol) == Absv(a - b) <= tol
Close(a, b) == Absv(a - b) <= 24 + ((Absv(a) \div 512) + (Absv(b) \div 512))
Sum(n, f(_)) == FoldLeft(LAMBDA acc, k : acc + f(k), 0, [k \in 1..n |-> k])
All(n, p(_)) == \A k \in 1..n : p(k)

(* shapes *)
Size(s) == FoldLeft(LAMBDA acc, k : acc * k, 1, s)
FrontN(s, k) == SubSeq(s, 1, Len(s) - k)
Pad(s, n) == [i \in 1..(n - Len(s)) |-> 1] \o s
Compatible(s, t) ==
  LET n == Max2(Len(s), Len(t)) a == Pad(s, n) b == Pad(t, n)
  IN \A i \in 1..n : a[i] = b[i] \/ a[i] = 1 \/ b[i] = 1
Bcast(s, t) ==
  LET n == Max2(Len(s), Len(t)) a == Pad(s, n) b == Pad(t, n)
  IN [i \in 1..n |-> IF a[i] = 1 THEN b[i] ELSE a[i]]
\* where element i (from 0, C order) of an array of shape out reads an array of shape s broadcast to it
At(i, out, s) ==
  LET n == Len(out) d == n - Len(s)
  IN FoldLeft(LAMBDA acc, k :
        LET j == n + 1 - k
            digit == acc[1] % out[j]
        IN IF j > d THEN << acc[1] \div out[j], acc[2] + (IF s[j - d] = 1 THEN 0 ELSE digit * acc[3]), acc[3] * s[j - d] >>
           ELSE << acc[1] \div out[j], acc[2], acc[3] >>,
        << i, 0, 1 >>, [k \in 1..n |-> k])[2]

(* n x n matrices inside flat arrays: entry (i, j) of matrix number m *)
Ent(d, m, n, i, j) == d[(m * n * n) + ((i - 1) * n) + j]
\* F' F = C
FactorOf(f, c(_, _), m, n) ==
  \A i \in 1..n, j \in 1..n :
     i <= j => Close(Sum(n, LAMBDA k : Mul(Ent(f, m, n, k, i), Ent(f, m, n, k, j))), c(i, j))

------------------------------------------------------------------------------
(* the shape of a draw: size may have more leading dimensions than the      *)
(* broadcast shape of the parameters, must not have fewer, and where it has *)
(* a one the parameters decide                                              *)
SizeOk(size, base) == Len(size) >= Len(base) /\ Compatible(size, base)
Shape(e, base) == IF e.hs THEN Bcast(e.size, base) ELSE base
Grants(e, base) == e.hs => SizeOk(e.size, base)

\* a vector draw: row number i of the result is mean + z F
Rows(shape, n, mean, ms, fac, fs, tape, out) ==
  \A i \in 0..(Size(shape) - 1) :
     LET mi == At(i, shape, ms) fi == At(i, shape, fs)
     IN \A j \in 1..n :
          Close(out[(i * n) + j],
                mean[(mi * n) + j] + Sum(n, LAMBDA k : Mul(tape[(i * n) + k], Ent(fac, fi, n, k, j))))

Refuse == ~E.ok /\ E.same /\ Len(E.tape) = 0
Whole == E.ok /\ E.same

\* multivariate_normal(mean, cov, size); E.given: cov is already a factor A with A A' the covariance
Mvn == /\ Is("mvn")
       /\ LET n == E.mean.s[Len(E.mean.s)]
              ms == FrontN(E.mean.s, 1)
              cs == FrontN(E.cov.s, 2)
              base == Bcast(ms, cs)
              shape == Shape(E, base)
          IN IF ~Compatible(ms, cs) \/ ~Grants(E, base) THEN Refuse
             ELSE /\ Whole
                  /\ E.shape = shape \o << n >>
                  /\ Len(E.out) = Size(shape) * n /\ Len(E.tape) = Size(shape) * n
                  /\ \A m \in 0..(Size(cs) - 1) :
                       IF E.given THEN \A i \in 1..n, j \in 1..n : Close(Ent(E.fac, m, n, i, j), Ent(E.cov.d, m, n, j, i))
                       ELSE E.valid => FactorOf(E.fac, LAMBDA i, j : Ent(E.cov.d, m, n, i, j), m, n)
                  /\ Rows(shape, n, E.mean.d, ms, E.fac, cs, E.tape, E.out)

Re(d, i) == d[(2 * i) + 1]
Im(d, i) == d[(2 * i) + 2]
Half(a) == a \div 2
\* covariance of real and imaginary part of a complex normal variate with variance g (real) and relation r
CnCov(g, r, gi, ri, i, j) ==
  CASE i = 1 /\ j = 1 -> Half(Re(g, gi) + Re(r, ri))
    [] i = 2 /\ j = 2 -> Half(Re(g, gi) - Re(r, ri))
    [] OTHER -> Half(Im(r, ri))
\* complex_normal(loc, gamma, relation, size): size has to be what the parameters broadcast to
Cn == /\ Is("cn")
      /\ LET gr == Bcast(E.gamma.s, E.rel.s)
             base == Bcast(E.loc.s, gr)
             shape == IF E.hs THEN E.size ELSE base
             fits == Compatible(E.gamma.s, E.rel.s) /\ Compatible(E.loc.s, gr)
                     /\ (E.hs => (Compatible(E.size, base) /\ Bcast(E.size, base) = E.size))
         IN IF ~fits THEN Refuse
            ELSE /\ Whole
                 /\ E.shape = shape
                 /\ Len(E.out) = 2 * Size(shape) /\ Len(E.tape) = 2 * Size(shape)
                 /\ \A m \in 0..(Size(gr) - 1) :
                      FactorOf(E.fac, LAMBDA i, j : CnCov(E.gamma.d, E.rel.d, At(m, gr, E.gamma.s), At(m, gr, E.rel.s), i, j), m, 2)
                 /\ Rows(shape, 2, E.loc.d, E.loc.s, E.fac, gr, E.tape, E.out)

\* covariance of the 2n components re_1, im_1, re_2, ...: E[xx'] and E[xy'] from
\* gamma = E[z conj(z)'] and relation = E[z z']
McnCov(g, r, gm, rm, n, i, j) ==
  LET a == (i + 1) \div 2  b == (j + 1) \div 2
      gi == (gm * n * n) + ((a - 1) * n) + (b - 1)
      ri == (rm * n * n) + ((a - 1) * n) + (b - 1)
  IN CASE i % 2 = 1 /\ j % 2 = 1 -> Half(Re(g, gi) + Re(r, ri))
       [] i % 2 = 0 /\ j % 2 = 0 -> Half(Re(g, gi) - Re(r, ri))
       [] i % 2 = 1 /\ j % 2 = 0 -> Half(Im(r, ri) - Im(g, gi))
       [] OTHER -> Half(Im(r, ri) + Im(g, gi))
Mcn == /\ Is("mcn")
       /\ LET n == E.loc.s[Len(E.loc.s)]
              ls == FrontN(E.loc.s, 1)
              gs == FrontN(E.gamma.s, 2)
              rs == FrontN(E.rel.s, 2)
              cs == Bcast(gs, rs)
              base == Bcast(ls, cs)
              shape == Shape(E, base)
          IN IF ~Compatible(gs, rs) \/ ~Compatible(ls, cs) \/ ~Grants(E, base) THEN Refuse
             ELSE /\ Whole
                  /\ E.shape = shape \o << n >>
                  /\ Len(E.out) = 2 * Size(shape) * n /\ Len(E.tape) = 2 * Size(shape) * n
                  /\ \A m \in 0..(Size(cs) - 1) :
                       FactorOf(E.fac, LAMBDA i, j : McnCov(E.gamma.d, E.rel.d, At(m, cs, gs), At(m, cs, rs), n, i, j), m, 2 * n)
                  /\ Rows(shape, 2 * n, E.loc.d, ls, E.fac, cs, E.tape, E.out)

------------------------------------------------------------------------------
(* Wishart draws: B' B with B the df x dim normals when df < dim, otherwise *)
(* (Odell and Feiveson) upper triangular, its diagonal the roots of         *)
(* chi-squares with df, df-1, ... degrees of freedom.                       *)
Cells(df, n) ==   \* one draw's variates, in the order of the stream: <<row, column, degrees of freedom or 0>>
  IF df < n THEN [k \in 1..(df * n) |-> << ((k - 1) \div n) + 1, ((k - 1) % n) + 1, 0 >>]
  ELSE FlattenSeq([i \in 1..n |-> << << i, i, df + 1 - i >> >> \o [j \in 1..(n - i) |-> << i, i + j, 0 >>]])
\* entry (i, j) of (B F)' (B F) for the draw whose variates start behind tape position at; f(k, j) the factor
WishEntry(cells, tape, at, n, f(_, _), i, j) ==
  LET rows == FoldLeft(LAMBDA acc, c : Max2(acc, c[1]), 0, cells)
      y(r, col) == FoldLeft(LAMBDA acc, p : IF cells[p][1] = r THEN acc + Mul(tape[at + p], f(cells[p][2], col)) ELSE acc,
                            0, [p \in 1..Len(cells) |-> p])
      yt == [r \in 1..rows |-> << y(r, i), y(r, j) >>]
  IN Sum(rows, LAMBDA r : Mul(yt[r][1], yt[r][2]))
\* rounding of the terms, relative to the diagonal of the result
WishTol(out, el, n, i, j) == 24 + ((Absv(Ent(out, el, n, i, i)) + Absv(Ent(out, el, n, j, j))) \div 1024)
Dfs(cells) == [p \in 1..Len(cells) |-> cells[p][3]]

Wishart == /\ Is("wish")
  /\ LET n == E.scale.s[Len(E.scale.s)]
         ss == FrontN(E.scale.s, 2)
         base == Bcast(E.df.s, ss)
         cnt == Size(base)
         shape == IF E.hs THEN E.size ELSE base
         fits == Compatible(E.df.s, ss) /\ (E.hs => (Len(E.size) >= Len(base) /\ SubSeq(E.size, Len(E.size) - Len(base) + 1, Len(E.size)) = base))
         reps == Size(shape) \div cnt
         cells == [p \in 1..cnt |-> Cells(E.df.d[At(p - 1, base, E.df.s) + 1], n)]
         \* parameter set by parameter set
         start == FoldLeft(LAMBDA acc, p : Append(acc, acc[Len(acc)] + (reps * Len(cells[p]))), << 0 >>, [p \in 1..cnt |-> p])
     IN IF ~fits THEN Refuse
        ELSE /\ Whole
             /\ E.shape = shape \o << n, n >>
             /\ Len(E.out) = Size(shape) * n * n
             /\ E.kinds = FlattenSeq([p \in 1..cnt |-> FlattenSeq([b \in 1..reps |-> Dfs(cells[p])])])
             /\ \A m \in 0..(Size(ss) - 1) :
                  IF E.given THEN \A i \in 1..n, j \in 1..n : Close(Ent(E.fac, m, n, i, j), Ent(E.scale.d, m, n, j, i))
                  ELSE FactorOf(E.fac, LAMBDA i, j : Ent(E.scale.d, m, n, i, j), m, n)
             /\ \A p \in 1..cnt, b \in 1..reps :
                  LET m == At(p - 1, base, ss)
                      at == start[p] + ((b - 1) * Len(cells[p]))
                      el == ((b - 1) * cnt) + (p - 1)
                  IN \A i \in 1..n, j \in 1..n :
                       Near(Ent(E.out, el, n, i, j),
                            WishEntry(cells[p], E.tape, at, n, LAMBDA k, c : Ent(E.fac, m, n, k, c), i, j),
                            WishTol(E.out, el, n, i, j))

StdWishart == /\ Is("sw")
  /\ LET n == E.n
         shape == IF E.hs THEN E.size ELSE << >>
         cells == Cells(E.df, n)
     IN /\ Whole
        /\ E.shape = shape \o << n, n >>
        /\ Len(E.out) = Size(shape) * n * n
        /\ E.kinds = FlattenSeq([b \in 1..Size(shape) |-> Dfs(cells)])
        /\ \A el \in 0..(Size(shape) - 1), i \in 1..n, j \in 1..n :
             LET w == WishEntry(cells, E.tape, el * Len(cells), n, LAMBDA k, c : IF k = c THEN One ELSE 0, i, j)
             IN Near(Ent(E.out, el, n, i, j), IF E.rescale THEN w \div E.df ELSE w, WishTol(E.out, el, n, i, j))

------------------------------------------------------------------------------
(* the same call with the arguments spelled differently *)
Spell == /\ Is("spell") /\ E.unmodified /\ E.same /\ E.shape = E.oshape
         /\ Len(E.out) = Len(E.was) /\ \A i \in 1..Len(E.out) : Absv(E.out[i] - E.was[i]) <= 2

(* Is the matrix positive semidefinite?  Small integer matrices, decided   *)
(* exactly by their principal minors.                                      *)
Minor(c, n, rows) ==
  CASE Len(rows) = 1 -> Ent(c, 0, n, rows[1], rows[1])
    [] Len(rows) = 2 -> (Ent(c, 0, n, rows[1], rows[1]) * Ent(c, 0, n, rows[2], rows[2])) - (Ent(c, 0, n, rows[1], rows[2]) * Ent(c, 0, n, rows[2], rows[1]))
    [] Len(rows) = 3 ->
         LET a(i, j) == Ent(c, 0, n, rows[i], rows[j])
         IN (a(1,1) * ((a(2,2) * a(3,3)) - (a(2,3) * a(3,2))))
            - (a(1,2) * ((a(2,1) * a(3,3)) - (a(2,3) * a(3,1))))
            + (a(1,3) * ((a(2,1) * a(3,2)) - (a(2,2) * a(3,1))))
Subsets3(n) ==
  {<< i >> : i \in 1..n} \cup {<< i, j >> : i \in 1..n, j \in 1..n} \cup {<< i, j, k >> : i \in 1..n, j \in 1..n, k \in 1..n}
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Psd(c, n) == \A r \in Subsets3(n) : Increasing(r) => Minor(c, n, r) >= 0
Pd(c, n) == \A k \in 1..n : Minor(c, n, [i \in 1..k |-> i]) > 0
\* E.res: 0 drawn in silence, 1 drawn with a warning, 2 refused with ValueError (or LinAlgError)
\* E.check: 0 ignore, 1 warn, 2 raise
Valid == /\ Is("valid")
         /\ LET psd == Psd(E.cov, E.n) pd == Pd(E.cov, E.n) r == E.res[1]
            IN /\ psd /\ E.method \in {"svd", "eigh"} => r = 0
               /\ pd => r = 0
               /\ ~psd /\ E.method \in {"svd", "eigh"} => r = E.check
               /\ ~psd /\ E.method = "cholesky" /\ E.check > 0 => r > 0
               /\ ~psd /\ E.check = 2 => r = 2
         /\ (E.res[1] = 2 => E.same)

(* The same for complex normals: a circular part gamma = E z z^H and a      *)
(* relation = E z z^T, small Gaussian integers (flat, interleaved).  They   *)
(* are possible iff the covariance they imply for real and imaginary parts  *)
(* is symmetric and positive semidefinite.                                  *)
RECURSIVE Det(_, _, _)
Det(m(_, _), rows, cols) ==
  IF rows = << >> THEN 1
  ELSE Sum(Len(cols), LAMBDA k :
         (IF k % 2 = 1 THEN 1 ELSE -1) * m(rows[1], cols[k])
         * Det(m, Tail(rows), [i \in 1..(Len(cols) - 1) |-> cols[IF i < k THEN i ELSE i + 1]]))
Rising(S, n) == SelectSeq([k \in 1..n |-> k], LAMBDA k : k \in S)
PsdM(m(_, _), n) == \A S \in SUBSET (1..n) : Det(m, Rising(S, n), Rising(S, n)) >= 0
PdM(m(_, _), n) == \A k \in 1..n : Det(m, [i \in 1..k |-> i], [i \in 1..k |-> i]) > 0
Implied(g, r, n, i, j) ==      \* twice the covariance of (re_1..re_n, im_1..im_n)
  LET at(a) == ((a - 1) % n) + 1
      k == ((at(i) - 1) * n) + (at(j) - 1)
  IN CASE i <= n /\ j <= n -> Re(g, k) + Re(r, k)
       [] i > n /\ j > n -> Re(g, k) - Re(r, k)
       [] i > n /\ j <= n -> Im(g, k) + Im(r, k)
       [] OTHER -> Im(r, k) - Im(g, k)
ValidC == /\ Is("validc")
          /\ LET m(i, j) == Implied(E.g, E.r, E.n, i, j)
                 d == 2 * E.n
                 sym == \A i \in 1..d, j \in 1..d : m(i, j) = m(j, i)
                 psd == sym /\ PsdM(m, d)
                 pd == sym /\ PdM(m, d)
                 res == E.res[1]
             IN CASE E.which = "cn" -> res = IF psd THEN 0 ELSE 2
                  [] OTHER -> /\ ~sym => res = 2
                              /\ pd => res = 0
                              /\ psd /\ E.method \in {"svd", "eigh"} => res = 0
                              /\ sym /\ ~psd /\ E.method \in {"svd", "eigh"} => res = E.check
                              /\ sym /\ ~psd /\ E.method = "cholesky" /\ E.check > 0 => res > 0
                              /\ ~psd /\ E.check = 2 => res = 2
          /\ (E.res[1] = 2 => E.same)

(* Which shapes go together: the last two dimensions of a matrix are both   *)
(* the dimension of the mean (Wishart: equal), the leading ones broadcast.  *)
Square(b, n) == Len(b) >= 2 /\ b[Len(b)] = n /\ b[Len(b) - 1] = n
ShapesFit(which, a, b, c) ==
  CASE which = "wish" -> Len(b) >= 2 /\ Square(b, b[Len(b)]) /\ Compatible(a, FrontN(b, 2))
    [] which = "mvn" -> Len(a) >= 1 /\ Square(b, a[Len(a)]) /\ Compatible(FrontN(a, 1), FrontN(b, 2))
    [] which = "mcn" -> /\ Len(a) >= 1 /\ Square(b, a[Len(a)]) /\ Square(c, a[Len(a)])
                        /\ Compatible(FrontN(b, 2), FrontN(c, 2))
                        /\ Compatible(FrontN(a, 1), Bcast(FrontN(b, 2), FrontN(c, 2)))
\* E.res: << 1 >> drawn, << 0 >> refused, with nothing taken from the stream
Misfit == /\ Is("misfit")
          /\ IF ShapesFit(E.which, E.a, E.b, E.c) THEN E.res = << 1 >> ELSE E.res = << 0 >> /\ E.same
Reset == Is("reset")

Next == Reset \/ ValidC \/ Misfit \/ Mvn \/ Cn \/ Mcn \/ Wishart \/ StdWishart \/ Spell \/ Valid
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
