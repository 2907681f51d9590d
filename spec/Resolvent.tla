----------------------------- MODULE Resolvent -----------------------------
(* Spectral functions.  For H, of eigenvalues s^2 D[i] as in Lanczos.tla, and a start
   vector x, the function is  w <x| (z - sgn (off - H))^(-1) |x> / <x|x>  with all
   energies in units of s^2 and its values in units of 1/s^2: a pole for every level,
   as strong as the part of x in it.                                                 *)
EXTENDS Lanczos
\* the share of x in every level, out of total
Fraction(v, d, x, off, w, sgn) ==
  LET lv == Levels(v, d, x)
      p == Primitive(Mirror(v, x))
      part(l) == FoldLeft(LAMBDA a, i : a + (IF d[i] = l THEN CNorm2(p[i]) ELSE 0), 0, Idx(Len(x), LAMBDA i : i)) IN
  [lv |-> lv, levels |-> Len(lv), kernel |-> lv = <<0>>, share |-> [q \in DOMAIN lv |-> part(lv[q])], total |-> Size2(p),
   off |-> off, w |-> w, sgn |-> sgn]
G == 10000
\* a / b to the nearest whole
Nearest(a, b) == (2 * a + b) \div (2 * b)
Pole(c, off, sgn, z) == \E q \in DOMAIN c.lv : z = <<sgn * (off - c.lv[q]), 0>>
\* the value at z = <<re, im>>, in units of 1 / G
Term(c, q, off, sgn, z) ==
  LET x == z[1] - sgn * (off - c.lv[q])
      m == x * x + z[2] * z[2]
      k == Nearest(G * c.share[q], c.total) IN
  <<Nearest(c.w * k * x, m), Nearest(-(c.w * k * z[2]), m)>>
Green(c, off, sgn, z) == IF c.w = 0 THEN Z ELSE CSum([q \in DOMAIN c.lv |-> Term(c, q, off, sgn, z)])
Tol(c) == 2 + c.levels * (Abs(c.w) + 1)
\* one point for every whole step that fits
Reals(a, b, c, dl) == IF b <= a THEN <<>> ELSE [q \in 1 .. (b - a) \div c |-> <<a + (q - 1) * c, dl>>]
Matsubaras(dl, beta, n) == [q \in 1 .. n |-> <<dl, (2 * q - 1) * beta>>]
(* --- tridiagonal matrices: a on the diagonal, b[i + 1] between i and i + 1 --------- *)
TriAt(a, b, i, j) == IF i = j THEN a[i] ELSE IF j = i + 1 THEN b[j] ELSE IF i = j + 1 THEN b[i] ELSE 0
Tri(a, b, n) == Mat(n, n, LAMBDA i, j : <<TriAt(a, b, i, j), 0>>)
\* Sturm: the signs of the leading minors of 2 T - l
RECURSIVE Minors(_, _, _, _, _)
Minors(a, b, n, l, k) ==
  IF k = 0 THEN <<1>>
  ELSE LET p == Minors(a, b, n, l, k - 1) IN
       Append(p, (2 * a[k] - l) * p[k] - (IF k = 1 THEN 0 ELSE 4 * b[k] * b[k] * p[k - 1]))
\* how many eigenvalues are below l / 2, if none of the minors vanishes
Below(ms) == Cardinality({k \in 1 .. Len(ms) - 1 : (ms[k] > 0) # (ms[k + 1] > 0)})
SumOf(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
\* e, in units of 1 / G, are the eigenvalues of the leading n of T
RootsOk(a, b, n, e) ==
  LET top == SumOf([i \in 1 .. n |-> Abs(a[i]) + 2 * Abs(b[i])])  small == [i \in 1 .. n |-> Nearest(e[i], 100)] IN
  /\ Len(e) = n
  /\ \A i \in 1 .. n - 1 : e[i] <= e[i + 1]
  /\ Close(SumOf(e), G * SumOf(SubSeq(a, 1, n)), n + 1)
  /\ Close(SumOf([i \in 1 .. n |-> small[i] * small[i]]),
           G * (SumOf([i \in 1 .. n |-> a[i] * a[i] + (IF i > 1 THEN 2 * b[i] * b[i] ELSE 0)])), 100 * (n + 1) * (top + 1))
  /\ \A l \in -2 * top .. 2 * top :
       LET ms == Minors(a, b, n, l, n) IN
       IF \E k \in DOMAIN ms : ms[k] = 0
       THEN ms[n + 1] = 0 => \E i \in 1 .. n : Close(2 * e[i], G * l, 4)
       ELSE Cardinality({i \in 1 .. n : 2 * e[i] < G * l}) = Below(ms)
=============================================================================
