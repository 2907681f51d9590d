------------------------------- MODULE TraceT01 -------------------------------
EXTENDS PsiTag, TraceBase
Reset(r) == [none |-> 0]
Refuses(r) == r.x = 1
Judge(r, s) ==
  LET z == FilesGive(r.files) IN
  CASE r.e = "tags" -> IF ~z.ok THEN When(Refuses(r), s, "a refusal")
                       ELSE LET want == {<<n, z.t[n]>> : n \in DOMAIN z.t} IN
                            When(r.x = 0 /\ Elems(r.tags) = want /\ Len(r.tags) = Cardinality(want), s, want)
    [] r.e = "text" -> LET w == Whole(z.t, r.s, {}) IN
                       IF ~z.ok \/ ~w.ok THEN When(Refuses(r), s, "a refusal") ELSE When(r.x = 0 /\ r.t = w.s, s, w.s)
    [] r.e = "conf" -> LET w == FilesUsed(r.base, r.given, r.env) IN When(r.x = 0 /\ r.list = w, s, w)
    [] r.e = "flavor" -> LET w == Flavor(z.t, r.name) IN
                       IF ~z.ok \/ ~w.ok THEN When(Refuses(r), s, "a refusal") ELSE When(r.x = 0 /\ r.t = w.s, s, w.s)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
