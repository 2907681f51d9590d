---------------------------- MODULE ParallelLoop ----------------------------
(* What a caller may observe of one parallel loop over start .. start+N-1 with at
   most T threads: bodies begin and end, and the loop returns.  Apply gives, for
   an observed event, whether the state allows it and the state after it.  The
   same operator is the action of the model and the judge of recorded runs.   *)
EXTENDS Lists
LoopState(start, N, T) ==
  [start |-> start, n |-> N, t |-> T, begun |-> {}, ended |-> {}, run |-> [k \in Range0(T) |-> -1], ret |-> FALSE]
Begin(s, t, i) ==
  [ok |-> /\ ~s.ret
          /\ t \in Range0(s.t)
          /\ i >= s.start /\ i < s.start + s.n
          /\ i \notin s.begun
          /\ s.run[t] = -1,
   st |-> IF t \in Range0(s.t) THEN [s EXCEPT !.begun = @ \cup {i}, !.run[t] = i] ELSE s]
End(s, t, i) ==
  [ok |-> ~s.ret /\ t \in Range0(s.t) /\ s.run[t] = i,
   st |-> IF t \in Range0(s.t) THEN [s EXCEPT !.ended = @ \cup {i}, !.run[t] = -1] ELSE s]
Return(s) ==
  [ok |-> ~s.ret /\ Cardinality(s.ended) = s.n /\ s.begun = s.ended,
   st |-> [s EXCEPT !.ret = TRUE]]
\* an event is <<kind, thread, index>> with kind 0 begin, 1 end, 2 return
Apply(s, e) == CASE e[1] = 0 -> Begin(s, e[2], e[3])
                 [] e[1] = 1 -> End(s, e[2], e[3])
                 [] e[1] = 2 -> Return(s)
\* the first event that is not allowed (0 if all are), and the state reached
Run(s0, evs) ==
  FoldLeft(LAMBDA a, e : IF a.bad # 0 THEN a
                         ELSE LET r == Apply(a.st, e) IN
                              IF r.ok THEN [bad |-> 0, k |-> a.k + 1, st |-> r.st]
                              ELSE [bad |-> a.k + 1, k |-> a.k + 1, st |-> a.st],
           [bad |-> 0, k |-> 0, st |-> s0], evs)
Accepts(s0, evs) == LET r == Run(s0, evs) IN r.bad = 0 /\ r.st.ret
=============================================================================
