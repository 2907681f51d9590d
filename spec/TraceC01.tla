------------------------------ MODULE TraceC01 ------------------------------
(* A record holds the events of one call of a loop:
   <<kind, loop, thread, index>>; loop 0 is the loop itself, loop i+1 the inner
   loop that the body of index i runs (nested loops), with its own begin, end,
   return events and kind 3 for its call.                                     *)
EXTENDS ParallelLoop, TraceBase
Reset(r) == <<>>
Of(evs, k) == Map(SelectSeq(evs, LAMBDA e : e[2] = k /\ e[1] # 3), LAMBDA e : <<e[1], e[3], e[4]>>)
PosOf(evs, P(_)) == LET A == {i \in DOMAIN evs : P(evs[i])} IN IF A = {} THEN 0 ELSE CHOOSE i \in A : \A j \in A : i <= j
\* the inner loop of body i is called after body i begins and returns before it ends
Nested(evs, i) ==
  LET b == PosOf(evs, LAMBDA e : e[1] = 0 /\ e[2] = 0 /\ e[4] = i)
      f == PosOf(evs, LAMBDA e : e[1] = 1 /\ e[2] = 0 /\ e[4] = i)
      A == {k \in DOMAIN evs : evs[k][2] = i + 1}
  IN \A k \in A : b < k /\ k < f
Judge(r, s) ==
  CASE r.e = "mk" -> IF r.serial = 1 /\ r.t # 1 THEN When(r.x # 0, s, "a refusal of more than one thread")
                     ELSE When(r.x = 0, s, "an engine")
    [] r.e = "loop" ->
       LET run == Run(LoopState(r.start, r.n, r.t), Of(r.ev, 0)) IN
       When(r.x = 0 /\ run.bad = 0 /\ run.st.ret, s, [badEvent |-> run.bad, done |-> Cardinality(run.st.ended), returned |-> run.st.ret])
    [] r.e = "nest" ->
       LET run == Run(LoopState(0, r.n, r.t), Of(r.ev, 0)) IN
       When(/\ r.x = 0 /\ run.bad = 0 /\ run.st.ret
            /\ \A i \in Range0(r.n) : Nested(r.ev, i) /\ Accepts(LoopState(0, r.m, r.t2), Of(r.ev, i + 1)),
            s, [badOuter |-> run.bad, bodies |-> {i \in Range0(r.n) : ~Accepts(LoopState(0, r.m, r.t2), Of(r.ev, i + 1))}])
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
