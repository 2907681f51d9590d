------------------------------ MODULE TraceD03 ------------------------------
EXTENDS BlasOps, TraceBase
Reset(r) == <<>>
Judge(r, s) ==
  CASE r.e = "blas" ->
         IF r.f \in Solves THEN When(r.x = 0 /\ r.same = 1 /\ Len(r.out) = Len(r.B) /\ Solved(r, r.out), s, "what solves it")
         ELSE LET w == Result(r) IN When(r.x = 0 /\ r.same = 1 /\ r.out = w, s, w)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
