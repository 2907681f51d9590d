----------------------------- MODULE TracePredicate -----------------------------
EXTENDS Predicate, TraceBase
Reset(r) == [ok |-> FALSE, f |-> <<>>]
Judge(r, s) ==
  CASE r.e = "pred" ->
         LET f == Formula(r.s, r.or, r.and)  ok == WellFormed(f) /\ (r.spec = 1 \/ Settings(r.s, r.or) = <<>>) IN
         IF ~ok THEN When(r.x = 1, [ok |-> FALSE, f |-> f], "an exception")
         ELSE When(r.x = 0 /\ r.set = Settings(r.s, r.or), [ok |-> TRUE, f |-> f], Settings(r.s, r.or))
    [] r.e = "is" ->
         LET env == [q \in DOMAIN r.n |-> [n |-> r.n[q], v |-> r.v0[q]]] IN
         IF ~s.ok THEN When(r.x = 1, s, "an exception")
         ELSE LET tb == Table(r.t, s.f, env)  v == FormulaValue(tb) IN
              IF v = "e" THEN When(r.x = 1, s, "an exception")
              ELSE When((r.x = 1 /\ Erroneous(tb)) \/ (r.x = 0 /\ r.v = (IF v = "t" THEN 1 ELSE 0)), s, v)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
