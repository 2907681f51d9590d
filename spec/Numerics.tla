------------------------------ MODULE Numerics ------------------------------
(* Time stepping, linear prediction and thermal factors, in whole numbers.

   A system y' = M y + g(t), with g a polynomial, whose solution is a polynomial of at
   most degree 4 in time, is followed exactly by a method of order 4; values come in
   units of 1/(24 b^4), the step being 1/b.  For any M, a step with no g multiplies by
   1 + hM + ... + (hM)^4/24.
   Linear prediction continues a sequence with the combination of its last values that
   fits its second half best.                                                          *)
EXTENDS Spectral, TLC
Fact(k) == CASE k = 0 -> 1 [] k = 1 -> 1 [] k = 2 -> 2 [] k = 3 -> 6 [] OTHER -> 24
R(k) == <<k, 0>>
VZero(n) == [i \in 1 .. n |-> Z]
RECURSIVE PowVec(_, _, _)
PowVec(m, k, v) == IF k = 0 THEN v ELSE PowVec(m, k - 1, TLCEval(MVec(m, v)))
IsZeroV(v) == \A i \in DOMAIN v : v[i] = Z
Pow(x, k) == IF k = 0 THEN 1 ELSE x ^ k
Binom(n, k) == CASE k = 0 -> 1 [] k = 1 -> n [] k = 2 -> (n * (n - 1)) \div 2 [] OTHER -> (n * (n - 1) * (n - 2)) \div 6
\* the d-th derivative of g = SUM c[q+1] t^q at t0; n is the dimension
Deriv(c, d, t0, n) ==
  FoldLeft(LAMBDA a, v : TLCEval(VAdd(a, v)), VZero(n), [q \in DOMAIN c |->
    LET e == q - 1 IN IF e < d THEN VZero(n) ELSE VScale(R(Fact(d) * Binom(e, d) * Pow(t0, e - d)), c[q])])
\* the k-th derivative of the solution at t0
SolDeriv(m, c, y0, t0, k) ==
  FoldLeft(LAMBDA a, v : TLCEval(VAdd(a, v)), TLCEval(PowVec(m, k, y0)), [j \in 1 .. k |-> PowVec(m, k - j, Deriv(c, j - 1, t0, Len(y0)))])
\* the solution is a polynomial of degree 4 at most
Polynomial(m, c, y0, t0) == \A k \in 5 .. 8 : IsZeroV(SolDeriv(m, c, y0, t0, k))
\* y(t0 + i/b) in units of 1/(24 b^4)
Exact(m, c, y0, t0, b, i) ==
  FoldLeft(LAMBDA a, v : TLCEval(VAdd(a, v)), VZero(Len(y0)), [kk \in 1 .. 5 |-> LET k == kk - 1 IN
     VScale(R((24 \div Fact(k)) * Pow(i, k) * Pow(b, 4 - k)), SolDeriv(m, c, y0, t0, k))])
\* 24 b^4 times the factor of one step
StepFactor(m, b, v) ==
  FoldLeft(LAMBDA a, w : TLCEval(VAdd(a, w)), VZero(Len(v)), [kk \in 1 .. 5 |-> LET k == kk - 1 IN VScale(R((24 \div Fact(k)) * Pow(b, 4 - k)), PowVec(m, k, v))])
RECURSIVE Steps(_, _, _, _)
Steps(m, b, v, i) == IF i = 0 THEN v ELSE Steps(m, b, TLCEval(StepFactor(m, b, v)), i - 1)
(* --- linear prediction -------------------------------------------------------------- *)
\* y has 2 n values
LpA(y, n, p) == Mat(p, p, LAMBDA l, j : R(FoldLeft(LAMBDA a, i : a + y[i - l + 1] * y[i - j + 1], 0, [i \in 1 .. n |-> n + i - 1])))
LpB(y, n, p) == [l \in 1 .. p |-> FoldLeft(LAMBDA a, i : a + y[i - l + 1] * y[i + 1], 0, [i \in 1 .. n |-> n + i - 1])]
\* <<determinant, the coefficients times it>>
LpD(y, n, p) ==
  LET A == LpA(y, n, p)  B == LpB(y, n, p)  ad == Adj(A) IN
  <<Det(A)[1], [j \in 1 .. p |-> FoldLeft(LAMBDA a, l : a + ad.a[j][l][1] * B[l], 0, Idx(p, LAMBDA l : l))]>>
Reduced(d) == LET g == FoldLeft(LAMBDA a, e : Gcd(a, Abs(e)), d[1], d[2]) IN IF g = 0 THEN d ELSE <<d[1] \div g, [j \in DOMAIN d[2] |-> d[2][j] \div g]>>
LpRefused(len, p) == (len % 2) = 1 \/ p = 0 \/ p > len \div 2
\* v: the values times G; the one at position i of the continuation is the combination of those before
G == 100
LpNext(d, v, i) == FoldLeft(LAMBDA a, j : a + d[2][j] * v[i - j], 0, Idx(Len(d[2]), LAMBDA j : j))
LpBound(d) == FoldLeft(LAMBDA a, j : a + Abs(d[2][j]), d[1], Idx(Len(d[2]), LAMBDA j : j))
\* whether the comparison stays within TLC's integers, by the values before
LpSmall(d, v, i) == LET m == (2 ^ 29) \div LpBound(d) IN \A j \in 1 .. Len(d[2]) : Abs(v[i - j]) <= m
LpFits(d, v, i) == LET w == LpNext(d, v, i) IN w \div d[1] - v[i] \in -(1 + LpBound(d) \div d[1]) .. (1 + LpBound(d) \div d[1])
(* --- thermal factors at k times the logarithm of 2, in units of 2^-30 ---------------------- *)
One30 == 2 ^ 30
Fermi(k) == IF k >= 30 THEN 0 ELSE IF k >= 0 THEN One30 \div (1 + 2 ^ k) ELSE One30 - (IF k <= -30 THEN 0 ELSE One30 \div (1 + 2 ^ (-k)))
\* minus the derivative, in units of 2^-20
MinusPrime(k) == LET a == Abs(k) IN IF a > 10 THEN (IF a >= 20 THEN 0 ELSE 2 ^ (20 - a)) ELSE ((2 ^ 20) * (2 ^ a)) \div ((1 + 2 ^ a) * (1 + 2 ^ a))
=============================================================================
