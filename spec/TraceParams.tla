------------------------------ MODULE TraceParams ------------------------------
EXTENDS Params, TraceBase
\* file: the entries with a value (in an input program a name may be declared and have none)
Reset(r) == [file |-> <<>>]
Entries(r) == SelectSeq([q \in DOMAIN r.ent |-> [p |-> r.ent[q][1], i |-> r.ent[q][2], n |-> r.ent[q][3], v |-> r.ent[q][4], set |-> r.ent[q][5]]], LAMBDA e : e.set = 1)
Want(s, r) == LET w == Parameters(s.file, r.prefix, r.ind) IN [w EXCEPT ![10] = IF @ > 0 THEN 0 ELSE 1]
Judge(r, s) ==
  CASE r.e = "file" -> When(r.x = 0, [file |-> Entries(r)], "no exception")
    [] r.e = "get" -> When(r.x = 0 /\ r.got = Want(s, r), s, Want(s, r))
    [] r.e = "none" -> LET w == [Parameters(<<>>, "", -1) EXCEPT ![6] = <<>>, ![10] = 0] IN When(r.x = 0 /\ r.got = w, s, w)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
