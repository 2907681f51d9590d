------------------------------- MODULE Lanczos -------------------------------
(* Extreme eigenstates of a Hermitian matrix from one start vector.  The matrices are
   H = M D M with M = s 1 - 2 v v^+, s = v^+ v and D diagonal, all of (Gaussian)
   integers: M^2 = s^2 1, so that H has the eigenvalues s^2 D[i], and the columns of
   M are its eigenvectors.  The coefficients of x in them are M x / s^2.
   The start vector x reaches the eigenvalues whose eigenspace it is not orthogonal
   to, its levels, and of each eigenspace only its own projection: the Krylov space
   of x has one dimension for every level.                                        *)
EXTENDS Cplx
Size2(v) == FoldLeft(LAMBDA a, x : a + CNorm2(x), 0, v)
\* M x
Mirror(v, x) ==
  LET s == Size2(v)  p == VDot(v, x) IN
  [i \in DOMAIN x |-> CSub(CMul(<<s, 0>>, x[i]), CMul(<<2, 0>>, CMul(v[i], p)))]
Diag(d, x) == [i \in DOMAIN x |-> CMul(<<d[i], 0>>, x[i])]
HTimes(v, d, x) == Mirror(v, Diag(d, Mirror(v, x)))
LevelSet(v, d, x) == LET o == Mirror(v, x) IN {d[i] : i \in {i \in DOMAIN x : o[i] # Z}}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE y \in S : \A u \in S : y <= u IN <<m>> \o Ascending(S \ {m})
\* the eigenvalues in reach, in units of s^2
Levels(v, d, x) == Ascending(LevelSet(v, d, x))
\* the part of x in the eigenspace of l, times s^2
Part(v, d, x, l) ==
  LET o == Mirror(v, x) IN Mirror(v, [i \in DOMAIN x |-> IF d[i] = l THEN o[i] ELSE Z])
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
GcdAll(y) == FoldLeft(LAMBDA g, e : Gcd(Gcd(g, Abs(e[1])), Abs(e[2])), 0, y)
Primitive(y) == LET g == GcdAll(y) IN IF g = 0 THEN y ELSE [i \in DOMAIN y |-> <<y[i][1] \div g, y[i][2] \div g>>]
(* --- what a run gives -------------------------------------------------------------
   z, given in units of 1/K, is of length one and proportional to the part of x in the
   eigenspace of l                                                                    *)
K == 10000
Close(a, b, tol) == Abs(a - b) <= tol
CClose(a, b, tol) == Close(a[1], b[1], tol) /\ Close(a[2], b[2], tol)
\* x, divided until products with it are small
Shrink(x, by) == [i \in DOMAIN x |-> <<x[i][1] \div by, x[i][2] \div by>>]
UnitLength(z) == Close(Size2(z), K * K, (K * K) \div 1000)
IsState(v, d, x, l, z) ==
  LET s == Size2(v)  w == Mirror(v, z)  oo == Mirror(v, x)
      o == Primitive([i \in DOMAIN x |-> IF d[i] = l THEN oo[i] ELSE Z])
      big == CHOOSE i \in DOMAIN x : d[i] = l /\ \A j \in DOMAIN x : d[j] = l => CNorm2(o[i]) >= CNorm2(o[j]) IN
  /\ UnitLength(z)
  /\ \A i \in DOMAIN x : d[i] # l => CClose(w[i], Z, 20 * s)
  /\ \A i \in DOMAIN x : d[i] = l =>
       \* w[i] = w[big] o[i] / o[big]
       LET n == CNorm2(o[big])
           q == CMul(o[i], CConj(o[big]))
           lhs == CMul(Shrink(w, s)[i], <<n, 0>>)
           rhs == CMul(Shrink(w, s)[big], q)
       IN Close(lhs[1], rhs[1], 30 * n) /\ Close(lhs[2], rhs[2], 30 * n)
\* the mean energy of z, in units of s^2/1000000
Mean(v, d, z) ==
  LET w == Shrink(Mirror(v, z), 10 * Size2(v)) IN
  FoldLeft(LAMBDA a, i : a + d[i] * CNorm2(w[i]), 0, Idx(Len(z), LAMBDA i : i))
=============================================================================
