------------------------------ MODULE TraceC02 ------------------------------
EXTENDS Balancer, TraceBase
Reset(r) == <<>>
Judge(r, s) ==
  CASE r.e = "default" ->
         When(r.x = 0 /\ Len(r.sh) = r.t /\ Partition(r.sh, r.n) /\ Blocks(r.sh, r.n), s, DefaultSharing(r.n, r.t))
    [] r.e = "weights" ->
         When(r.x = 0 /\ Len(r.sh) = r.t /\ Greedy(r.sh, r.w) /\ Balanced(r.sh, r.w), s, "a greedy sharing")
    [] r.e = "even" ->
         LET w == Const(r.n, 1) IN
         When(r.x = 0 /\ Len(r.sh) = r.t /\ Greedy(r.sh, w), s, "a greedy sharing of equal weights")
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
