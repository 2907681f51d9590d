------------------------------- MODULE TraceL02 -------------------------------
EXTENDS Spectral, TraceBase
Reset(r) == [none |-> 0]
Refused(r) == r.x = 1
Square(m) == m.r = m.c /\ m.r > 0
\* types 0 and 1 real, in double and single precision; 2 and 3 complex
Cx(r) == r.t >= 2
MatOf(r) == [r |-> r.rows, c |-> r.cols, a |-> Idx(r.rows, LAMBDA i : Idx(r.cols, LAMBDA j : r.a[(i - 1) * r.cols + j]))]
Judge(r, s) ==
  LET A == IF r.e \in {"inv", "svd", "geev"} THEN MatOf(r) ELSE ZeroM(0, 0) IN
  CASE r.e = "diag" ->
         LET e == Sorted(r.d) IN
         When(r.x = 0 /\ r.E = e /\ (r.opt = "V" => EigenBasis(r.v, r.d, r.z, e)), s, e)
    [] r.e = "exp" -> LET w == IF Cx(r) THEN Function(r.v, r.d, ITo) ELSE Function(r.v, r.d, TwoTo) IN When(r.x = 0 /\ r.m = w, s, w)
    [] r.e = "bad" -> When(Refused(r), s, "an exception")
    [] r.e = "inv" ->
         IF ~Square(A) \/ PlainlySingular(A) THEN When(Refused(r), s, "an exception")
         ELSE IF "inv" \in DOMAIN r THEN
           LET B == [r |-> r.rows, c |-> r.cols, a |-> Idx(r.rows, LAMBDA i : Idx(r.cols, LAMBDA j : r.inv[(i - 1) * r.cols + j]))] IN
           When(r.x = 0 /\ IsInverseBy(A, B, r.X), s, B)
         ELSE IF Det(A) = Z THEN When(r.x \in {0, 1}, s, "anything")
         ELSE When(r.x = 0 /\ IsInverse(A, r.X), s, [det |-> Det(A), adj |-> Adj(A)])
    [] r.e = "svd" ->
         IF A.r = 0 \/ A.c = 0 \/ r.job \notin {"A", "S"} \/ r.name \notin {"gesdd", "gesvd"}
         THEN When(Refused(r), s, "an exception")
         ELSE When(r.x = 0 /\ r.again = (IF r.name = "gesdd" THEN 1 ELSE 0) /\ IsSvd(A, r.job, r.U, r.s, r.V), s, "a singular value decomposition")
    [] r.e = "geev" ->
         LET n == A.r  tol == 40 * (n + 2) IN
         When(/\ r.x = 0 /\ IsSpectrum(A, r.w, 40 * tol)
              /\ \A q \in 1 .. n : /\ Unit(Col(r.R, q), 8 * F) /\ RightOk(A, r.w[q], Col(r.R, q), tol)
                                   /\ Unit(Col(r.L, q), 8 * F) /\ RightOk(Dag(A), CConj(r.w[q]), Col(r.L, q), tol), s, "its eigenvalues")
    [] r.e = "tri" ->
         LET n == IF r.n = 0 THEN Len(r.a) ELSE r.n  m == Tridiagonal(r.a, r.b, n) IN
         When(/\ r.x = 0 /\ r.as = r.a /\ r.bs = r.b
              /\ r.m = m
              /\ IsSpectrum(m, r.w, 60 * (n + 2) * (n + 2)), s, m)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
