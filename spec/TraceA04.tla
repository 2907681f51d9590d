------------------------------- MODULE TraceA04 -------------------------------
EXTENDS InputAinur, TraceBase
Reset(r) == [p |-> [ok |-> FALSE, vars |-> <<>>, funs |-> <<>>], used |-> {}, files |-> [n \in {} |-> <<>>]]
Put(f, n, v) == [q \in DOMAIN f \cup {n} |-> IF q = n THEN v ELSE f[q]]
Stm(s) == CASE s[1] = "decl" -> [k |-> "decl", ty |-> s[2], name |-> s[3]]
            [] s[1] = "init" -> [k |-> "init", ty |-> s[2], name |-> s[3], v |-> s[4]]
            [] s[1] = "set" -> [k |-> "set", name |-> s[2], v |-> s[3]]
            [] s[1] = "many" -> [k |-> "many", a |-> s[2], b |-> s[3], vs |-> s[4]]
            [] OTHER -> [k |-> "bad"]
NamedVals(p, used) == {<<p.vars[q].name, p.vars[q].v>> : q \in {q \in DOMAIN p.vars : ~p.vars[q].bang \/ p.vars[q].name \in used}}
Judge(r, s) ==
  CASE r.e = "file" -> When(r.x = 0, [s EXCEPT !.files = Put(@, r.name, r.lines)], "")
    [] r.e = "text" -> LET w == WrittenOut(r.text) IN
                       When(IF w.ok THEN r.x = 0 /\ r.data = w.t ELSE r.x = 1, s, w)
    [] r.e = "prog" -> LET w == WrittenOut(r.text)
                           p == RunProgram(Flat([q \in DOMAIN r.st |-> Stm(r.st[q])]), s.files) IN
                       IF p.ok /\ w.ok
                       THEN When(/\ r.x = 0 /\ r.data = w.t /\ r.ainur = 1 /\ r.version = 3
                                 /\ LET m == NamedVals(p, {}) IN {<<r.map[q][1], r.map[q][2]>> : q \in DOMAIN r.map} = m /\ Len(r.map) = Cardinality(m),
                                 [s EXCEPT !.p = p, !.used = {}], "accepted")
                       ELSE When(r.x = 1, [s EXCEPT !.p = [ok |-> FALSE, vars |-> <<>>, funs |-> <<>>], !.used = {}], "an exception")
    [] ~s.p.ok -> When(r.x = 1, s, "an exception: no program")
    [] r.e = "rd" -> LET n == IF r.shape = "s" THEN NameOf(r.name) ELSE r.name
                         y == ReadVar(s.p, n, r.shape, r.k, r.had) IN
                     IF y.ok THEN When(r.x = 0 /\ r.got = y.v, [s EXCEPT !.used = @ \cup {n}], y.v)
                     ELSE When(r.x = 1, s, "an exception")
    [] r.e = "unused" -> LET u == Unused(s.p, s.used) IN When(r.x = 0 /\ r.got = u, s, u)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
