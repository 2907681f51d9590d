------------------------------ MODULE TraceStore ------------------------------
EXTENDS Store, TraceBase
F == {"f0", "f1"}
Reset(r) == [fs |-> [f \in F |-> None], h |-> NoHandle]
Cond(c, s, e) == When(c, s, e)
Val(r) == [k |-> r.k, a |-> r.a]
WroteM(r, s, m) ==
  Cond(TRUE, [s EXCEPT !.h.m = m, !.h.dirty = @ \cup {r.p}], "")
\* what a read of p must give when the file holds m; sure: it must be so
\* (what a value of another kind reads as is not specified, only that whole numbers,
\* real numbers and complex ones are not taken for one another)
ReadOk(r, m) ==
  IF Has(m, r.p) /\ Clash(m[r.p], r.k) THEN r.x # 0
  ELSE IF Has(m, r.p) /\ m[r.p].k # r.k /\ ~Readable(m[r.p], r.k) /\ <<r.k, m[r.p].k>> \notin {<<"vd", "vz">>, <<"vf", "vzf">>} THEN TRUE
  ELSE IF Has(m, r.p) /\ Readable(m[r.p], r.k) THEN r.x = 0 /\ r.got = ReadAs(m[r.p], r.k)
  ELSE r.x # 0
ReadWant(r, m) == IF Has(m, r.p) /\ Readable(m[r.p], r.k) THEN ReadAs(m[r.p], r.k) ELSE <<"an exception">>
Judge(r, s) ==
  LET h == s.h  file == IF h.f = "" THEN None ELSE s.fs[h.f] IN
  CASE r.e = "open" ->
         IF s.fs[r.f].st \in {"bad", "torn"} /\ r.mode \in {"rdw", "excl"} THEN When(FALSE, s, "not generated")
         ELSE IF Opens(s.fs[r.f], r.mode)
         THEN Cond(r.x = 0 /\ r.name = r.f, [s EXCEPT !.h = OpenH(r.f, s.fs[r.f], r.mode)], "opens")
         ELSE Cond(r.x # 0, s, "an exception")
    [] r.e = "close" -> Cond(r.x = 0, [s EXCEPT !.fs[h.f] = Closed(file, h), !.h = NoHandle], "no exception")
    [] r.e = "flush" -> Cond(r.x = 0, [s EXCEPT !.h = Flushed(h)], "no exception")
    [] r.e = "kill" -> Cond(r.x = 0, [s EXCEPT !.fs[h.f] = Crashed(file, h), !.h = NoHandle], "killed")
    [] r.e = "tamper" -> Cond(r.x = 0, [s EXCEPT !.fs[r.f] = [st |-> "bad"]], "")
    [] r.e = "remove" -> Cond(r.x = 0, [s EXCEPT !.fs[r.f] = None], "")
    [] r.e = "put" -> LET m == Put(h.m, r.p, Val(r), r.mode) IN
                      IF m # h.m \/ (Has(m, r.p) /\ m[r.p] = Val(r) /\ r.mode = 1) THEN Cond(r.x = 0, [s EXCEPT !.h.m = m, !.h.dirty = @ \cup {r.p}], "no exception")
                      ELSE WroteM(r, s, m)
    [] r.e = "over" -> LET m == Over(h.m, r.p, Val(r)) IN
                       IF m # h.m THEN Cond(r.x = 0, [s EXCEPT !.h.m = m, !.h.dirty = @ \cup {r.p}], "no exception") ELSE WroteM(r, s, m)
    [] r.e = "group" -> WroteM(r, s, Group(h.m, r.p))
    [] r.e = "hasgroup" -> Cond(r.x = 0 /\ r.res = (IF Has(h.m, r.p) /\ Grouplike(h.m[r.p]) THEN 1 ELSE 0), s, "whether there is such a group")
    [] r.e = "ent" -> WroteM(r, s, Entry(h.m, r.p, r.a, r.n))
    [] r.e = "lastent" ->
         IF h.w \/ Sure(file, r.p)
         THEN IF Has(h.m, r.p) /\ h.m[r.p].k = "ent"
              THEN Cond(r.x = 0 /\ r.got = h.m[r.p].a[Len(h.m[r.p].a)], s, h.m[r.p].a[Len(h.m[r.p].a)])
              ELSE IF Has(h.m, r.p) /\ h.m[r.p].k \in {"vv", "vvz", "vvi", "vvb", "vm", "st"} /\ h.m[r.p].a # <<>>
              THEN Ok(s) \* such a value is written as a growing list is
              ELSE Cond(r.x # 0, s, "an exception")
         ELSE Ok(s)
    [] r.e = "read" -> IF h.w \/ Sure(file, r.p) THEN Cond(ReadOk(r, h.m), s, ReadWant(r, h.m)) ELSE Ok(s)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
