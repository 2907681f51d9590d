------------------------------ MODULE TraceC03 ------------------------------
EXTENDS Gemm, TraceBase
Reset(r) == <<>>
Judge(r, s) ==
  CASE r.e = "gemm" -> LET w == Result(r) IN
         When(r.x = 0 /\ r.out = w /\ r.same = 1, s, [want |-> w])
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
