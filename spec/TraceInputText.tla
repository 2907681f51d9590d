---------------------------- MODULE TraceInputText ----------------------------
EXTENDS InputText, TraceBase
Reset(r) == [ok |-> FALSE, s |-> <<>>, v |-> <<>>]
Miss(r, s) == When(r.x = 1, s, "an exception")
Judge(r, s) ==
  CASE r.e = "parse" ->
         LET p == Parse(r.text, Elems(r.known), Elems(r.lax)) IN
         IF p.ok THEN When(r.x = 0, [ok |-> TRUE, s |-> Store(p.es, "s"), v |-> Store(p.es, "v")], "accepted")
         ELSE When(r.x = 1, [s EXCEPT !.ok = FALSE], "refused")
    [] ~s.ok -> Miss(r, s)
    [] r.e = "map" -> LET want == {<<lab, Map(s.s[lab], LAMBDA v : v[1])>> : lab \in {lab \in DOMAIN s.s : s.s[lab] # <<>>}} IN
                      When(r.x = 0 /\ {<<r.got[q][1], r.got[q][2]>> : q \in DOMAIN r.got} = want, s, want)
    [] r.e \in {"line", "rread"} ->
         LET lab == Label(r.label) IN
         IF ~Has1(s.s, lab) THEN Miss(r, s)
         ELSE LET y == ScalarOf(s.s[lab][1][1], r.k) IN
              IF ~y.ok THEN Miss(r, s)
              ELSE When(r.x = 0 /\ r.got = y.v, [s EXCEPT !.s = Used(@, lab, r.clean = 1, r.force = 1)], y.v)
    [] r.e = "list" ->
         LET lab == Label(r.label) IN
         IF ~Has1(s.v, lab) THEN Miss(r, s)
         ELSE LET y == ListOf(s.v[lab][1], r.k) IN
              IF ~y.ok THEN Miss(r, s) ELSE When(r.x = 0 /\ r.got = y.v, [s EXCEPT !.v = Used(@, lab, TRUE, FALSE)], y.v)
    [] r.e = "mat" ->
         LET lab == Label(r.label) IN
         IF ~Has1(s.v, lab) THEN Miss(r, s)
         ELSE LET y == MatrixFrom(s.v[lab][1], r.k) IN
              IF ~y.ok THEN Miss(r, s) ELSE When(r.x = 0 /\ r.got = y.v, [s EXCEPT !.v = Used(@, lab, TRUE, FALSE)], y.v)
    [] r.e = "rmap" -> LET y == MapOf(s.s, Label(r.label)) IN
                       IF ~y.ok THEN Miss(r, s) ELSE When(r.x = 0 /\ {<<r.got[q][1], r.got[q][2]>> : q \in DOMAIN r.got} = y.v /\ Len(r.got) = Cardinality(y.v), s, y.v)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
