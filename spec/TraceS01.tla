------------------------------ MODULE TraceS01 ------------------------------
(* Every record carries all four registers; each must mean the matrix the
   machine of Crs.tla holds.                                                    *)
EXTENDS Crs, TraceBase
Reset(r) == Const(4, NoMat)
Agree(m, s) == \A k \in DOMAIN s : m[k].r = s[k].r /\ m[k].c = s[k].c /\ Dense(m[k]) = s[k]
B(x) == IF x THEN 1 ELSE 0
Res(r, s) ==
  LET A(k) == s[k + 1] IN
  CASE r.e = "mtc" -> r.res = MMul(A(r.a), Dag(A(r.b)))
    [] r.e = "todense" -> r.res = A(r.a)
    [] r.e = "mvp" -> r.res = VAdd(r.vx, MVec(A(r.a), r.vy)) /\ r.yy = r.vy
    [] r.e = "mv" -> r.res = MVec(A(r.a), r.vy) /\ r.yy = r.vy
    [] r.e = "pred" -> /\ r.zero = B(IsZeroM(A(r.a))) /\ r.diag = B(IsDiagM(A(r.a))) /\ r.herm = B(IsHermitian(A(r.a)))
                       /\ r.anti = B(IsAntiHermitian(A(r.a))) /\ r.id = B(IsIdM(A(r.a))) /\ r.n2 = MNorm2(A(r.a))
    \* equal matrices may be stored differently; unequal ones are never equal
    [] r.e = "eq" -> r.eq \in {0, 1} /\ (r.eq = 1 => A(r.a) = A(r.b)) /\ (r.a = r.b /\ A(r.a).r > 0 => r.eq = 1)
    [] OTHER -> TRUE
(* the random matrix in its own class: entries (row, column, value) drawn one after
   another, of a real dense meaning; read back or filled by hand it is the same      *)
RealV(w) == [k \in DOMAIN w |-> <<w[k], 0>>]
SampleOk(r) ==
  LET m == Triplets(r.n, r.n, r.rr, r.cc, RealV(r.vv))
      Arrays(p, j, v) == /\ Len(p) = r.n + 1 /\ p[1] = 0 /\ p[r.n + 1] = r.nz /\ Len(j) = r.nz /\ \A k \in 1 .. r.n : p[k] <= p[k + 1]
                         /\ Dense([r |-> r.n, c |-> r.n, p |-> p, j |-> j, v |-> RealV(v)]) = m
      y == VAdd(RealV(r.vx), MVec(m, RealV(r.vy))) IN
  /\ Arrays(r.p, r.j, r.v) /\ r.bp = r.p /\ r.bj = r.j /\ r.bv = r.v /\ r.cp = r.p /\ r.cj = r.j /\ r.cv = r.v
  /\ RealV(r.y) = y /\ RealV(r.by) = y /\ RealV(r.cy) = y
Judge(r, s) == IF r.e = "sample" THEN When(r.x = 0 /\ SampleOk(r), s, "the matrix drawn") ELSE LET t == Step(r, s) IN
  IF r.x # 0 THEN When(FALSE, s, "no exception")
  ELSE When(Agree(r.m, t) /\ Res(r, s), t, t)
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
