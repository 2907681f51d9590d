------------------------------ MODULE Chebyshev ------------------------------
(* Chebyshev polynomials, the moments <v| T_n((H - b) / a) |v> of a Hermitian matrix, and
   the sums of moments that give its spectral density.                                *)
EXTENDS Resolvent
\* q^m T_m(p / q): <<the last, the one before>> after m steps
TPair(m, p, q) == FoldLeft(LAMBDA t, i : <<2 * p * t[1] - q * q * t[2], t[1]>>, <<p, 1>>, Idx(m - 1, LAMBDA i : i))
TPoly(m, p, q) == IF m = 0 THEN 1 ELSE TPair(m, p, q)[1]
\* 2 T_m(u / 2), for u between -2 and 2
THalf(m, u) ==
  CASE u = 2 -> 2
    [] u = -2 -> IF m % 2 = 0 THEN 2 ELSE -2
    [] u = 0 -> <<2, 0, -2, 0>>[(m % 4) + 1]
    [] u = 1 -> <<2, 1, -1, -2, -1, 1>>[(m % 6) + 1]
    [] OTHER -> <<2, -1, -1>>[(m % 3) + 1]
\* the moments in units of 1 / G; a: half the width of the interval, b: its middle;
\* every level is at one of the five half-integer points of it
\* (T_n of these points repeats after twelve)
MuUnits(v, d, x, a, b) ==
  LET c == Fraction(v, d, x, 0, 1, 1)  n2 == Size2(x) IN
  [m \in 1 .. 12 |->
     Nearest(G * n2 * FoldLeft(LAMBDA s, q : s + c.share[q] * THalf(m - 1, (2 * (c.lv[q] - b)) \div a), 0, Idx(Len(c.lv), LAMBDA q : q)), 2 * c.total)]
(* --- sums ---------------------------------------------------------------------------
   kernels in units of 1 / G                                                           *)
\* sin of multiples of 15 degrees; cot of 180 / n degrees
Sine == <<0, 2588, 5000, 7071, 8660, 9659, 10000, 9659, 8660, 7071, 5000, 2588, 0>>
Sin15(k) == Sine[k + 1]
Cos15(k) == IF k <= 6 THEN Sine[7 - k] ELSE -Sine[k - 5]
Cot(n) == CASE n = 2 -> 0 [] n = 3 -> 5774 [] n = 4 -> 10000 [] n = 6 -> 17321 [] n = 12 -> 37321
Jackson(c, i) == LET n == c + 1  k == (12 * i) \div n IN Nearest((n - i) * Cos15(k) + Nearest(Sin15(k) * Cot(n), G), n)
\* lambda = c ln 2
Lorentz(c, i) == Nearest(G * (4 ^ (c - i) - 1) * (2 ^ i), 4 ^ c - 1)
Kernel(kind, c, i) == IF kind = 0 THEN Jackson(c, i) ELSE IF kind = 1 THEN Lorentz(c, i) ELSE G
\* T_m(e / q) in units of 1 / G, |e| < q
TUnits(m, e, q) == IF (2 * e) % q = 0 THEN 5000 * THalf(m, (2 * e) \div q)
                   ELSE LET g == Gcd(e, q) IN Nearest(G * TPoly(m, e \div g, q \div g), (q \div g) ^ m)
\* sqrt(1 - x^2) times the plotted value at x = e / q, in units of 1 / 1000
Density(mu, kind, cut, e, q) ==
  LET n == Len(mu)
      c == IF cut = 0 \/ n < cut THEN n ELSE cut
      term(i) == Nearest(mu[i] * Kernel(kind, c, i - 1) * (IF i = 1 THEN 1 ELSE 2), 10) IN
  IF Abs(e) >= q THEN 0
  ELSE FoldLeft(LAMBDA s, i : s + Nearest(term(i) * TUnits(i - 1, e, q), G), 0, Idx(c, LAMBDA i : i))
CeilOf(a, b) == (a + b - 1) \div b
=============================================================================
