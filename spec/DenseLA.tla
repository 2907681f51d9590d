------------------------------- MODULE DenseLA -------------------------------
(* Dense matrices stored column by column, and vectors with lazy expressions:
   the storage, and a machine of three matrix and three vector registers.       *)
EXTENDS Cplx
(* --- storage ------------------------------------------------------------------- *)
Store(m) == [r |-> m.r, c |-> m.c, d |-> Idx(m.r * m.c, LAMBDA k : m.a[((k - 1) % m.r) + 1][((k - 1) \div m.r) + 1])]
Load(s) == Mat(s.r, s.c, LAMBDA i, j : s.d[i + (j - 1) * s.r])
\* the design of the operations on the storage
SResize(s, c, v) == [r |-> s.r, c |-> c, d |-> Idx(s.r * c, LAMBDA k : IF k <= Len(s.d) THEN s.d[k] ELSE v)]
SMap2(x, y, F(_, _)) == [r |-> x.r, c |-> x.c, d |-> [k \in DOMAIN x.d |-> F(x.d[k], y.d[k])]]
(* --- meaning of the operations -------------------------------------------------- *)
MatOf(r) == [r |-> r.rows, c |-> r.cols, a |-> Idx(r.rows, LAMBDA i : Idx(r.cols, LAMBDA j : r.a[(i - 1) * r.cols + j]))]
NoMat == [r |-> 0, c |-> 0, a |-> <<>>]
Shape(m) == <<m.r, m.c>>
Empty(m) == m.r * m.c = 0
\* keeps what it holds; new columns are v
Resize(m, r, c, v) == Mat(r, c, LAMBDA i, j : IF i <= m.r /\ j <= m.c THEN m.a[i][j] ELSE v)
Outer(b, c) == Mat(b.r * c.r, b.c * c.c, LAMBDA i, j :
                CMul(b.a[((i - 1) % b.r) + 1][((j - 1) % b.c) + 1], c.a[((i - 1) \div b.r) + 1][((j - 1) \div b.c) + 1]))
VecMat(v, m) == Idx(m.c, LAMBDA j : FoldLeft(LAMBDA acc, k : CAdd(acc, CMul(v[k], m.a[k][j])), Z, Idx(m.r, LAMBDA k : k)))
\* the dot product of operator* conjugates the second, scalarProduct the first argument
DotSecond(u, v) == FoldLeft(LAMBDA acc, k : CAdd(acc, CMul(u[k], CConj(v[k]))), Z, Idx(Len(u), LAMBDA k : k))
VNorm2(v) == Sum(Map(v, LAMBDA x : CNorm2(x)))
MNorm2(x) == Sum(Idx(x.r, LAMBDA i : Sum(Idx(x.c, LAMBDA j : CNorm2(x.a[i][j])))))
NonZ(x) == Sum(Idx(x.r, LAMBDA i : Cardinality({j \in 1 .. x.c : x.a[i][j] # Z})))
\* exact quotient by a non-zero divisor that divides
CDiv(x, y) == LET n == CNorm2(y)  w == CMul(x, CConj(y)) IN <<w[1] \div n, w[2] \div n>>
MatExpr(k, D, A, B, s) ==
  CASE k \in {"sA", "As"} -> MScale(s, A)
    [] k = "A+B" -> MAdd(A, B)
    [] k = "A-B" -> MSub(A, B)
    [] k = "A+sB" -> MAdd(A, MScale(s, B))
    [] k = "sA+B" -> MAdd(MScale(s, A), B)
    [] k \in {"s(A+B)", "ctors(A+B)"} -> MScale(s, MAdd(A, B))
    [] k = "s(A-B)" -> MScale(s, MSub(A, B))
    [] k \in {"AB", "ctorAB"} -> MMul(A, B)
    [] k \in {"sAB", "ctorsAB"} -> MScale(s, MMul(A, B))
    [] k \in {"+=sA", "+=As"} -> IF Empty(D) THEN MScale(s, A) ELSE MAdd(D, MScale(s, A))
    [] k = "+=A" -> MAdd(D, A)
    [] k = "-=A" -> MSub(D, A)
    [] k = "*=s" -> MScale(s, D)
    [] k = "conj" -> ConjM(D)
    [] k = "setTo" -> Mat(D.r, D.c, LAMBDA i, j : s)
    [] k = "identity" -> IdM(D.r)
    [] k \in {"dag", "dagf"} -> Dag(A)
    [] k = "trans" -> Trans(A)
    [] k = "AhB" -> MMul(Dag(A), B)
    [] k = "AtB" -> MMul(Trans(A), B)
    [] k = "outer" -> Outer(A, B)
    [] k = "rotate" -> MMul(Dag(A), MMul(D, A))
    [] k = "copy" -> A
    [] k = "clear" -> NoMat
VecExpr(k, D, U, V, W, X, s, t, p, q) ==
  CASE k \in {"sv", "vs"} -> VScale(s, U)
    [] k = "s(tv)" -> VScale(CMul(s, t), U)
    [] k = "v+w" -> VAdd(U, V)
    [] k = "v+sw" -> VAdd(U, VScale(s, V))
    [] k = "sw+v" -> VAdd(VScale(s, U), V)
    [] k = "s(v+w)" -> VScale(s, VAdd(U, V))
    [] k = "sum4" -> VAdd(VAdd(VScale(s, U), VScale(t, V)), VAdd(VScale(p, W), VScale(q, X)))
    [] k = "v-w" -> VSub(U, V)
    [] k = "v-sw" -> VSub(U, VScale(s, V))
    [] k = "s(v-w)" -> VScale(s, VSub(U, V))
    [] k = "v-sw+tx" -> VAdd(VSub(U, VScale(s, V)), VScale(t, W))
    [] k = "+=v" -> VAdd(D, U)
    [] k = "-=v" -> VSub(D, U)
    [] k = "+=sv" -> VAdd(D, VScale(s, U))
    [] k = "-=sv" -> VSub(D, VScale(s, U))
    [] k = "*=s" -> VScale(s, D)
    [] k \in {"rsv", "isv"} -> VScale(<<s[1], 0>>, U)
    [] k = "r+=sv" -> VAdd(D, VScale(<<s[1], 0>>, U))
    [] k = "r*=s" -> VScale(<<s[1], 0>>, D)
    [] k = "/=s" -> Map(D, LAMBDA x : CDiv(x, s))
    [] k = "copy" -> U
=============================================================================
