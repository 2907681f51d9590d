------------------------------ MODULE TraceD01 ------------------------------
EXTENDS DenseLA, TraceBase
Reset(r) == [m |-> Const(3, NoMat), v |-> Const(3, <<>>)]
Seen(r, s) == r.x = 0 /\ r.m = s.m /\ r.v = s.v
B(x) == IF x THEN 1 ELSE 0
Square(m) == m.r = m.c
\* the result must be what is given and no register changed
Value(r, s, w) == When(Seen(r, s) /\ r.res = w, s, w)
Become(r, t) == When(Seen(r, t), t, t)
\* an exception; the caller reports the registers after it
Refused(r, s) == When(r.x = 0 /\ r.thrown = 1 /\ r.m = s.m /\ r.v = s.v, s, "an exception that changes nothing")
NotRefused(r) == "thrown" \in DOMAIN r => r.thrown = 0
Judge(r, s) ==
  LET M(k) == s.m[k + 1]  V(k) == s.v[k + 1]
      PutM(x) == Become(r, [s EXCEPT !.m[r.d + 1] = x])
      PutV(x) == Become(r, [s EXCEPT !.v[r.d + 1] = x]) IN
  IF r.x # 0 THEN When(FALSE, s, "no exception") ELSE
  CASE r.e = "mset" -> PutM(MatOf(r))
    [] r.e = "mdata" -> IF Len(r.a) < r.rows * r.cols THEN Refused(r, s)
                        ELSE PutM(Mat(r.rows, r.cols, LAMBDA i, j : r.a[i + (j - 1) * r.rows]))
    [] r.e = "mresize" -> IF M(r.d).r > 0 /\ M(r.d).r # r.rows THEN Refused(r, s)
                          ELSE PutM(Resize(M(r.d), r.rows, r.cols, Z))
    [] r.e = "mresizev" -> PutM(Resize(M(r.d), r.rows, r.cols, r.s))
    [] r.e = "mop" ->
         LET D == M(r.d)  A == M(r.a)  C == M(r.b) IN
         IF \/ r.k \in {"+=sA", "+=As"} /\ ~Empty(D) /\ D.r * D.c # A.r * A.c
            \/ r.k = "identity" /\ ~Square(D)
            \/ r.k \in {"dag", "trans"} /\ D.r > 0 /\ D.r # A.c
            \/ r.k = "outer" /\ D.r > 0 /\ D.r # A.r * C.r
         THEN Refused(r, s)
         ELSE IF ~NotRefused(r) THEN When(FALSE, s, "no exception")
         ELSE PutM(MatExpr(r.k, D, A, C, r.s))
    [] r.e = "mswap" -> Become(r, [s EXCEPT !.m[r.d + 1] = M(r.a), !.m[r.a + 1] = M(r.d)])
    [] r.e = "mput" -> PutM([M(r.d) EXCEPT !.a[r.i + 1][r.j + 1] = r.s])
    [] r.e = "mget" -> Value(r, s, M(r.a).a[r.i + 1][r.j + 1])
    [] r.e = "viewv" -> \* a rows x cols view of a vector from an offset; element i,j is read, then set
         LET at == r.off + r.i + r.j * r.rows + 1 IN
         When(Seen(r, [s EXCEPT !.v[r.d + 1][at] = r.s]) /\ r.res = V(r.d)[at], [s EXCEPT !.v[r.d + 1][at] = r.s], V(r.d)[at])
    [] r.e = "minfo" ->
         LET A == M(r.a) IN
         When(/\ Seen(r, s)
              /\ r.nz = NonZ(A) /\ r.zero = B(IsZeroM(A)) /\ r.n2 = MNorm2(A)
              /\ IF Square(A) THEN r.herm = B(IsHermitian(A)) /\ r.anti = B(IsAntiHermitian(A)) /\ r.id = B(IsIdM(A))
                 ELSE r.herm = 2 /\ r.anti = 2
              /\ r.eq = B(A = M(r.b)), s, "what the matrix says")
    [] r.e = "toreal" -> PutM(MatOf(r))
    [] r.e = "vset" -> PutV(r.v0)
    [] r.e = "vop" -> PutV(VecExpr(r.k, V(r.d), V(r.a), V(r.b), V(r.c), V(r.d), r.s, r.t, r.p, r.q))
    [] r.e = "Av" -> PutV(MVec(M(r.a), V(r.b)))
    [] r.e = "vA" -> PutV(VecMat(V(r.b), M(r.a)))
    [] r.e = "vvv" -> Value(r, s, MVec(MatOf(r), V(r.b)))
    [] r.e = "dot" ->
         LET U == V(r.a)  W == V(r.b) IN
         IF Len(U) # Len(W) THEN Refused(r, s)
         ELSE When(Seen(r, s) /\ r.res = DotSecond(U, W) /\ r.sp = VDot(U, W), s, <<DotSecond(U, W), VDot(U, W)>>)
    [] r.e = "vinfo" ->
         LET U == V(r.a)
             at == IF r.s \in Elems(U) THEN (CHOOSE k \in DOMAIN U : U[k] = r.s /\ \A q \in 1 .. k - 1 : U[q] # r.s) - 1 ELSE -1 IN
         When(Seen(r, s) /\ r.norm2 = VNorm2(U) /\ r.sum = CSum(U) /\ r.at = at, s, <<VNorm2(U), CSum(U), at>>)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
