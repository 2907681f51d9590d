------------------------------- MODULE TraceLabels -------------------------------
EXTENDS Labels, TraceBase
Reset(r) == <<>>
B(x) == IF x THEN 1 ELSE 0
P(y) == y.kind \in {"P", "R"}
\* -1: refused
VecOut(y) == [ket |-> B(y.ket), body |-> y.body, pv |-> B(y.kind = "P"), rv |-> B(y.kind = "R"),
              level |-> IF P(y) THEN -1 ELSE y.second, sector |-> IF P(y) THEN -1 ELSE y.first, p |-> IF P(y) THEN y.first ELSE -1]
Judge(r, s) ==
  CASE r.e = "op" -> LET y == OpLabel(r.s) IN
         IF ~y.ok THEN When(r.x = 1, s, "an exception")
         ELSE When(r.x = 0 /\ r.label = y.label /\ r.dof = y.dof /\ r.tr = B(y.transpose), s, y)
    [] r.e = "site" -> LET y == Site(r.s, r.b, r.c) IN
         IF ~y.ok THEN When(r.x = 1, s, "an exception")
         ELSE When(r.x = 0 /\ r.has = B(y.has) /\ r.root = y.root /\ r.site = y.site, s, y)
    [] r.e = "num" -> LET y == Number(r.s) IN
         IF ~y.ok THEN When(r.x = 0 /\ r.is = 0 /\ r.n = -1, s, "no number")
         ELSE When(r.x = 0 /\ r.is = 1 /\ r.n = y.n, s, y)
    [] r.e = "vec" -> LET y == BraOrKet(r.s) IN
         IF ~y.ok THEN When(r.x = 1, s, "an exception")
         ELSE When(r.x = 0 /\ [k \in DOMAIN VecOut(y) |-> r[k]] = VecOut(y), s, VecOut(y))
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
