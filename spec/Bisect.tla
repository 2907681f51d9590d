------------------------------ MODULE Bisect ------------------------------
(* A root of a function between two points where its signs differ, by halving; and
   interpolation by Akima's piecewise cubics.  Functions for the search are piecewise
   linear through whole values at whole points 0, 1, ..., Len(f) - 1, evaluated at
   binary fractions m / 2^D.                                                        *)
EXTENDS Integers, Sequences, SequencesExt, Functions, FiniteSets
D == 12
U == 2 ^ D
Abs1(x) == IF x < 0 THEN -x ELSE x
\* f at m / U, in units of 1 / U
At1(f, m) ==
  LET i == m \div U  r == m % U IN
  IF r = 0 THEN U * f[i + 1] ELSE f[i + 1] * (U - r) + f[i + 2] * r
Slope(f) == CHOOSE l \in 0 .. 100 : /\ \A i \in 1 .. Len(f) - 1 : Abs1(f[i + 1] - f[i]) <= l
                                    /\ (l = 0 \/ \E i \in 1 .. Len(f) - 1 : Abs1(f[i + 1] - f[i]) = l)
Sgn(x) == IF x >= 0 THEN 1 ELSE -1
Bracket(f, a, b) == f[a + 1] # 0 /\ f[b + 1] # 0 /\ Sgn(f[a + 1]) # Sgn(f[b + 1])
\* one step from <<a, b>>, in units of 1 / U, while they differ by an even number
Middle(a, b) == (a + b) \div 2
Halve(f, a, b) == LET c == Middle(a, b) IN IF Sgn(At1(f, c)) = Sgn(At1(f, a)) THEN <<c, b>> ELSE <<a, c>>
\* the steps are enough whatever they find; the tolerance is tol / 1024
Enough(f, a, b, n, tol) == n > 0 /\ Slope(f) * Abs1(b - a) * 1024 < tol * (2 ^ n)
(* --- Akima ------------------------------------------------------------------------
   x, s: whole points, increasing by one to three, and values.  Slopes in units of 1/6 *)
Slopes(x, s) ==
  LET k == Len(x)
      m == [i \in 1 .. k - 1 |-> (6 * (s[i + 1] - s[i])) \div (x[i + 1] - x[i])]
      l1 == 2 * m[1] - m[2]  l0 == 2 * l1 - m[1]
      r1 == 2 * m[k - 1] - m[k - 2]  r2 == 2 * r1 - m[k - 1]
  IN <<l0, l1>> \o m \o <<r1, r2>>
\* the derivative at point i as <<numerator, denominator>>
Deriv(d, i) ==
  LET a == Abs1(d[i + 3] - d[i + 2])  b == Abs1(d[i + 1] - d[i]) IN
  IF a + b = 0 THEN <<d[i + 1] + d[i + 2], 12>> ELSE <<a * d[i + 1] + b * d[i + 2], 6 * (a + b)>>
Scale == 300
Round(p, q) == (2 * p + q) \div (2 * q)
\* the value a quarter of the way j times after point i, in units of 1 / Scale
Akima(x, s, i, j) ==
  LET d == Slopes(x, s)  u == x[i + 1] - x[i]  t == j  g(p) == Deriv(d, p)
      h00 == 64 - 12 * t * t + 2 * t * t * t
      h01 == 12 * t * t - 2 * t * t * t
      h10 == 16 * t - 8 * t * t + t * t * t
      h11 == t * t * t - 4 * t * t
      tang(p, h) == Round(Round(Scale * g(p)[1], g(p)[2]) * u * h, 64) IN
  Round(Scale * (s[i] * h00 + s[i + 1] * h01), 64) + tang(i, h10) + tang(i + 1, h11)
=============================================================================
