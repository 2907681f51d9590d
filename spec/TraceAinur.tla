------------------------------ MODULE TraceAinur ------------------------------
EXTENDS Ainur, TraceBase
\* p: the program, used: what was read, files: name -> lines
Reset(r) == [p |-> [ok |-> FALSE, vars |-> <<>>, funs |-> <<>>], used |-> {}, files |-> [n \in {} |-> <<>>]]
Put(f, n, v) == [q \in DOMAIN f \cup {n} |-> IF q = n THEN v ELSE f[q]]
Stm(s) == CASE s[1] = "decl" -> [k |-> "decl", ty |-> s[2], name |-> s[3]]
            [] s[1] = "init" -> [k |-> "init", ty |-> s[2], name |-> s[3], v |-> s[4]]
            [] s[1] = "set" -> [k |-> "set", name |-> s[2], v |-> s[3]]
            [] OTHER -> [k |-> "bad"]
NamedVals(p, used) == {<<p.vars[q].name, p.vars[q].v>> : q \in {q \in DOMAIN p.vars : ~p.vars[q].bang \/ p.vars[q].name \in used}}
Judge(r, s) ==
  CASE r.e = "file" -> When(r.x = 0, [s EXCEPT !.files = Put(@, r.name, r.lines)], "")
    [] r.e = "prog" -> LET p == RunProgram([q \in DOMAIN r.st |-> Stm(r.st[q])], s.files) IN
                       IF p.ok THEN When(r.x = 0, [s EXCEPT !.p = p, !.used = {}], "accepted")
                       ELSE When(r.x = 1, [s EXCEPT !.p = p, !.used = {}], "an exception")
    [] ~s.p.ok -> When(FALSE, s, "no program")
    [] r.e = "rd" -> LET y == ReadVar(s.p, r.name, r.shape, r.k, r.had) IN
                     IF y.ok THEN When(r.x = 0 /\ r.got = y.v, [s EXCEPT !.used = @ \cup {r.name}], y.v)
                     ELSE When(r.x = 1, s, "an exception")
    [] r.e = "unused" -> LET u == Unused(s.p, s.used) IN When(r.x = 0 /\ r.got = u, s, u)
    [] r.e = "map" -> LET m == NamedVals(s.p, s.used) IN When(r.x = 0 /\ {<<r.got[q][1], r.got[q][2]>> : q \in DOMAIN r.got} = m /\ Len(r.got) = Cardinality(m), s, m)
    [] r.e = "resolve" -> LET y == ValueOf(r.t, s.p.funs) IN
                          IF y.ok THEN When(r.x = 0 /\ r.got = y.t, s, y.t) ELSE When(r.x = 1, s, "an exception")
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
