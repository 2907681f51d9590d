------------------------------ MODULE Analysis ------------------------------
(* Integrals, minima, the gamma function and linear prediction with the growing
   parts taken out, in whole numbers.

   Integrals of polynomials c (c[1] is the constant), in several settings, times a
   unit that makes them whole; the minimum of a positive quadratic form; a minimizer
   object that carries nothing from one search to the next.                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Pw(x, k) == IF k = 0 THEN 1 ELSE x ^ k
Upto(n) == [i \in 1 .. n |-> i]
Total(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
RECURSIVE Fac(_)
Fac(k) == IF k <= 1 THEN 1 ELSE k * Fac(k - 1)
RECURSIVE Odd(_)
\* 1 * 3 * ... * (2 k - 1)
Odd(k) == IF k <= 0 THEN 1 ELSE (2 * k - 1) * Odd(k - 1)
\* between a and b, times u; u is a multiple of 60 and the degree 5 at most
Between(c, u, a, b) == Total([k \in DOMAIN c |-> c[k] * (u \div k) * (Pw(b, k) - Pw(a, k))])
\* the polynomial, with its sign changed below s
Kinked(c, u, s, a, b) == LET lo == IF s < a THEN a ELSE IF s > b THEN b ELSE s IN Between(c, u, lo, b) - Between(c, u, a, lo)
\* c(1/x)/x^2 from a to infinity
Far(c, u, a) == Total([k \in DOMAIN c |-> c[k] * (u \div (k * Pw(a, k)))])
\* c(x - s) exp(s - x) from s to infinity
Decay(c, u) == u * Total([k \in DOMAIN c |-> c[k] * Fac(k - 1)])
\* c(x) exp(-x^2)/sqrt(pi) over the whole line
Bell(c, u) == Total([k \in DOMAIN c |-> IF (k % 2) = 0 THEN 0 ELSE c[k] * (u \div Pw(2, (k - 1) \div 2)) * Odd((k - 1) \div 2)])
Integral(kind, c, s, u, how, pts) ==
  CASE kind = 0 -> Between(c, u, pts[1], pts[Len(pts)])
    [] kind = 1 -> Kinked(c, u, s, pts[1], pts[Len(pts)])
    [] kind = 2 -> Far(c, u, pts[1])
    [] kind = 3 -> Decay(c, u)
    [] OTHER -> Bell(c, u)
(* --- twice the value of c + (x - m)^T a (x - m)/2 ------------------------------------- *)
Bowl2(a, m, c, x) == 2 * c + Total([i \in DOMAIN m |-> Total([j \in DOMAIN m |-> (x[i] - m[i]) * a[i][j] * (x[j] - m[j])])])
(* What a search may answer. how 0 needs no gradient; how 1 gives up when started where there is none.
   found: the point; it: rounds used; ok, st: the state reported; less: not above the start               *)
SUCCESS == <<71, 83, 76, 95, 83, 85, 67, 67, 69, 83, 83>>
CONTINUE == <<71, 83, 76, 95, 67, 79, 78, 84, 73, 78, 85, 69>>
UNKNOWN == <<85, 78, 75, 78, 79, 87, 78>>
Search(b, how, start, r) ==
  LET done == r.ok = 1 /\ r.st = SUCCESS /\ r.v = b.m /\ r.it \in 0 .. b.most - 1
      short == r.ok = 0 /\ r.st = CONTINUE /\ r.it = b.most
      \* the measure of a tiny simplex may stay above the tolerance by rounding; and where values
      \* are equal the method of the library may go round in circles by itself (round)
      there == how = 0 /\ short /\ (r.v = b.m \/ r.round = 1)
      flat == r.ok = 0 /\ r.st = UNKNOWN /\ r.v = start /\ r.it = 0 IN
  /\ r.less = 1
  /\ IF b.most = 0 THEN r.it = 0 /\ r.v = start
     ELSE IF how = 1 /\ start = b.m THEN flat
     ELSE done \/ there \/ (b.most < 300 /\ short)
(* --- the gamma function at a/2 + i b/2 -------------------------------------------------- *)
\* at n/2: (n/2 - 1)!, or that times 2^((n-1)/2)/sqrt(pi)
GammaHalf(n) == IF (n % 2) = 0 THEN Fac(n \div 2 - 1) ELSE Odd((n - 1) \div 2)
(* --- linear prediction: the roots of a recurrence are h/2; those beyond 1 are taken out ------------- *)
Kept(h) == [i \in DOMAIN h |-> IF h[i] > 2 \/ h[i] < -2 THEN 0 ELSE h[i]]
RECURSIVE Monic(_)
\* the coefficients of PRODUCT (x - h/2), the highest first, number k times 2^(k-1)
Monic(h) == IF h = <<>> THEN <<1>>
  ELSE LET m == Monic(SubSeq(h, 1, Len(h) - 1))  e == h[Len(h)]  n == Len(m) IN
       [k \in 1 .. n + 1 |-> (IF k <= n THEN m[k] ELSE 0) - (IF k > 1 THEN e * m[k - 1] ELSE 0)]
\* pairs of roots (a + i b)/2 and (a - i b)/2 too
KeptPairs(c) == [i \in DOMAIN c |-> IF c[i][1] * c[i][1] + c[i][2] * c[i][2] > 4 THEN <<0, 0>> ELSE c[i]]
TimesPair(m, q) ==
  LET n == Len(m)  at(k) == IF k \in 1 .. n THEN m[k] ELSE 0 IN
  [k \in 1 .. n + 2 |-> at(k) - 2 * q[1] * at(k - 1) + (q[1] * q[1] + q[2] * q[2]) * at(k - 2)]
Poly(h, c) == FoldLeft(TimesPair, Monic(h), c)
RECURSIVE Follow(_, _, _)
\* n more values of the recurrence with the coefficients m
Follow(y, m, n) == IF n = 0 THEN y
  ELSE LET k == Len(y)
           sum == Total([j \in 1 .. Len(m) - 1 |-> m[j + 1] * (y[k + 1 - j] \div Pw(2, j))]) IN Follow(Append(y, -sum), m, n - 1)
\* every division in n steps is exact
RECURSIVE Whole(_, _, _)
Whole(y, m, n) == n = 0 \/ (/\ \A j \in 1 .. Len(m) - 1 : m[j + 1] = 0 \/ (y[Len(y) + 1 - j] % Pw(2, j)) = 0
                            /\ Whole(Follow(y, m, 1), m, n - 1))
=============================================================================
