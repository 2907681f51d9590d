------------------------------- MODULE TraceR02 -------------------------------
EXTENDS Progress, TraceBase
Reset(r) == [there |-> FALSE, file |-> <<>>, seen |-> <<>>, env |-> <<>>]
Seen(s) == IF s.there THEN s.file ELSE s.seen
Judge(r, s) ==
  CASE r.e = "run" ->
         LET w == Run(Start(r.old = 1), r.acts, 1, r.inds, r.texts) IN
         When(/\ r.x = 0 /\ r.code = 0
              /\ r.out = w.out /\ r.err = w.err /\ r.saved = w.saved
              /\ r.A = (IF w.there["A"] THEN w.file["A"] ELSE <<"-">>) /\ r.B = (IF w.there["B"] THEN w.file["B"] ELSE <<"-">>)
              /\ r.thrown = w.thrown /\ r.said = w.said
              /\ Len(r.snap) = Len(w.snap) /\ r.snap = w.snap, s, w)
    [] r.e = "status" -> Ok([s EXCEPT !.there = TRUE, !.file = r.s])
    [] r.e = "nostatus" -> Ok([s EXCEPT !.there = FALSE])
    [] r.e = "usage" -> When(r.x = 0, [s EXCEPT !.seen = IF s.there THEN s.file ELSE <<>>], "a reading")
    [] r.e = "update" -> When(r.x = 0, [s EXCEPT !.seen = Seen(s)], "a reading")
    [] r.e = "entry" -> LET w == EntryOf(s.seen, r.l) IN When(r.x = 0 /\ r.got = w, s, w)
    \* what a run leaves about itself, when it starts and once it is over
    [] r.e = "info" -> When(/\ r.x = 0 /\ r.name = r.app /\ r.first = r.app /\ r.times = <<121, 121>>
                            /\ r.id = 1 /\ r.host = 1 /\ r.run = 1 /\ r.start = 1 /\ r.end = 1 /\ r.size > 0, s, "the start and the end")
    [] r.e = "env" -> IF NameOk(r.n) THEN When(r.x = 0 /\ r.said = Said(r.n, r.v), [s EXCEPT !.env = Append(@, <<r.n, r.v>>)], Said(r.n, r.v))
                      ELSE When(r.x = 1, s, "refused")
    [] r.e = "getenv" -> LET q == SelectSeq(s.env, LAMBDA y : y[1] = r.n)  w == IF q = <<>> THEN <<>> ELSE q[Len(q)][2] IN
                         When(r.x = 0 /\ r.there = (IF q = <<>> THEN 0 ELSE 1) /\ r.v = w, s, w)
    [] r.e = "times" -> LET u == r.t[2] - r.t[4] + r.t[6]  c == r.t[1] - r.t[3] + r.t[5] IN
                        When(r.x = 0 /\ r.sec * 1000 + (r.usec \div 1000) = c * 1000 + (u \div 1000) /\ r.usec % 1000 = (u % 1000)
                             /\ r.ms = c * 1000 + (u \div 1000), s, <<c, u>>)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
