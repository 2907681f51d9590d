----------------------------- MODULE MCChebyshev -----------------------------
(* The recursion of vectors that the code runs, x -> T_j x, in exact arithmetic for all
   small Hermitian matrices and vectors, with the moments from products of neighbouring
   vectors; next to it the moments by the definition.                                 *)
EXTENDS Chebyshev, TLC, Json
CONSTANTS N, MaxD, Cx, Steps
VARIABLES v, d, x, b, y0, y1, j, mu
vars == <<v, d, x, b, y0, y1, j, mu>>
Ent == {<<-1, 0>>, Z, <<1, 0>>} \cup (IF Cx THEN {<<0, 1>>} ELSE {})
Vecs == [1 .. N -> Ent]
\* everything in units of the size of H: with s = v^+ v, A = (H - b s^2) and T_j carries s^(2j)
S2 == Size2(v) * Size2(v)
A(y) == VSub(HTimes(v, d, y), VScale(<<b * S2, 0>>, y))
Zero == [i \in 1 .. N |-> Z]
Init == /\ v \in {w \in Vecs : Size2(w) > 0} /\ d \in [1 .. N -> 0 .. MaxD] /\ x \in {w \in Vecs : Size2(w) > 0}
        /\ b \in 0 .. 1 /\ y0 = Zero /\ y1 = x /\ j = 0 /\ mu = <<>>
\* y0 = T_{j-1} x, y1 = T_j x
Next ==
  /\ j < Steps
  /\ LET z == A(y1)
         t == IF j = 0 THEN z ELSE VSub(VScale(<<2, 0>>, z), VScale(<<S2 * S2, 0>>, y0))
         even == VDot(y1, y1)[1]
         odd == VDot(y1, t)[1] IN
     /\ mu' = mu \o <<IF j = 0 THEN even ELSE 2 * even - mu[1] * (S2 ^ (2 * j)),
                      IF j = 0 THEN odd ELSE 2 * odd - mu[2] * (S2 ^ (2 * j))>>
     /\ y0' = y1 /\ y1' = t
  /\ j' = j + 1 /\ UNCHANGED <<v, d, x, b>>
Spec == Init /\ [][Next]_vars
\* the moments are those of the levels
Moments ==
  LET c == Fraction(v, d, x, 0, 1, 1) IN
  \A n \in DOMAIN mu :
    mu[n] * c.total = Size2(x) * (S2 ^ (n - 1)) * FoldLeft(LAMBDA s, q : s + c.share[q] * TPoly(n - 1, c.lv[q] - b, 1), 0, Idx(Len(c.lv), LAMBDA q : q))
\* polynomials: doubling, composition, the values at half-integers
Poly == j = 0 =>
  \A m \in 0 .. 4, p \in -2 .. 2, q \in 1 .. 3 :
    /\ TPoly(2 * m, p, q) = 2 * TPoly(m, p, q) * TPoly(m, p, q) - q ^ (2 * m)
    /\ TPoly(2 * m + 1, p, q) = 2 * TPoly(m, p, q) * TPoly(m + 1, p, q) - p * q ^ (2 * m)
    /\ (Abs(p) <= 2 => TPoly(m, p, 2) * 2 = THalf(m, p) * 2 ^ m)
    /\ \A n \in 1 .. 2 : m <= 3 => TPoly(n * m, p, q) = TPoly(n, TPoly(m, p, q), q ^ m)
\* the kernels start at one, do not increase and are not negative
Kernels == j = 0 => \A k \in 0 .. 2, c \in {1, 2, 3, 5} :
  /\ Kernel(k, c, 0) = G
  /\ \A i \in 1 .. c - 1 : Kernel(k, c, i) <= Kernel(k, c, i - 1) /\ Kernel(k, c, i) >= 0
Emit == j = 0 => PrintT("@@" \o ToJson([v |-> v, d |-> d, x |-> x]))
=============================================================================
