------------------------------ MODULE TraceC04 ------------------------------
EXTENDS Settings, TraceBase
\* pth: is the library built with threads
Reset(r) == [S0 EXCEPT !.np = 1] @@ [pth |-> r.pth, refused |-> FALSE]
Places(where, cpus, own) ==
  IF Cardinality(cpus) = 1 THEN TRUE
  ELSE IF ~own THEN \A p \in where : p[2] = -1
  ELSE /\ \A p \in where : IF p[1] < Cardinality(cpus) THEN p[2] \in cpus ELSE p[2] = -1
       /\ \A p, q \in where : (p[1] = q[1]) = (p[2] = q[2]) \/ p[2] = -1
Judge(r, s) ==
  CASE r.e = "ctor" -> IF s.pth = 0 /\ r.n # 1 THEN When(r.x # 0, [s EXCEPT !.refused = TRUE], "a refusal")
                       ELSE When(r.x = 0 /\ r.mode = s.pth, Construct(s, r.n, s.pth = 1), "mode")
    [] r.e = "set" -> IF s.pth = 0 /\ (r.np # 1 \/ r.np2 # 1) THEN When(r.x # 0, [s EXCEPT !.refused = TRUE], "a refusal")
                      ELSE When(r.x = 0, [SetOptions(s, r.np, r.np2, r.aff, r.stack) EXCEPT !.refused = FALSE], "accepted")
    [] r.e = "get" -> IF s.refused THEN Ok(s)   \* what is in force after a refusal is not specified
                      ELSE Same(r, "r", <<s.np, s.np2, s.aff, s.stack, IF HasPth(s) THEN 1 ELSE 0, IF HasMpi(s) THEN 1 ELSE 0, 1, 1, 0>>, s)
    [] r.e = "mode" -> When(r.x = 0, [s EXCEPT !.mode = r.m], "ok")
    [] r.e = "slots" -> LET w == <<Slots(s, r.np), Idx(r.np, LAMBDA t : Slot(s, t - 1))>> IN
                        When(r.x = 0 /\ r.size = w[1] /\ r.idx = w[2], s, w)
    [] r.e = "loop" ->
         When(/\ r.x = 0
              /\ r.calls = r.n
              /\ \A i \in DOMAIN r.thr : r.thr[i] \in Range0(s.np)
              /\ Cardinality(Elems(r.thr)) <= ThreadsSeen(s, r.n)
              /\ (AllWork(s, r.n) => Cardinality(Elems(r.thr)) = ThreadsSeen(s, r.n))
              /\ (s.pth = 1 /\ s.stack > 0 /\ r.n > 0 => r.minstack >= s.stack \div 1024)
              /\ (r.kind = "ng" /\ s.pth = 1 => r.st = s.stack /\ r.af = s.aff)
              \* if asked for, each thread has a processor of its own as long as there are any
              /\ Places(Elems(r.where), Elems(r.cpus), r.kind = "ng" /\ s.pth = 1 /\ s.aff = 1)
              /\ (r.kind = "p2" => r.nth = s.np), s,
              [threads |-> ThreadsSeen(s, r.n), exactly |-> AllWork(s, r.n), stack |-> s.stack])
    [] r.e = "mdis" -> When(r.x = 0, Disable(s, r.lb), "ok")
    [] r.e = "misdis" -> Same(r, "r", IF IsDisabled(s, r.lb) THEN 1 ELSE 0, s)
    [] r.e = "mneed" -> LET w == IfNeeded(s, r.lb, r.rank, r.block, r.total) IN
         When(IF w.err THEN r.x # 0 ELSE r.x = 0 /\ r.r = <<w.rank, w.block>>, s, w)
    [] r.e = "ldis" -> When(r.x = 0, [s EXCEPT !.lab = @ \cup {r.lb}], "ok")
    [] r.e = "lis" -> Same(r, "r", IF r.lb \in s.lab THEN 1 ELSE 0, s)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
