------------------------------ MODULE Settings ------------------------------
(* The process-wide concurrency settings, the per-thread storage slots and the
   disabled section labels.  State: settings in force, the mode, and the labels
   disabled so far.                                                             *)
EXTENDS Lists
SERIAL == 0  PTH == 1  MPIM == 2
S0 == [np |-> 1, np2 |-> 1, aff |-> 0, stack |-> 0, mode |-> 0, dis |-> {}, lab |-> {}]
HasMpi(s) == s.mode \in {2, 3}
HasPth(s) == s.mode \in {1, 3}
Construct(s, n, pth) == [s EXCEPT !.np = n, !.np2 = 1, !.mode = IF pth THEN 1 ELSE 0]
SetOptions(s, np, np2, aff, stack) == [s EXCEPT !.np = np, !.np2 = np2, !.aff = aff, !.stack = stack]
Slots(s, np) == IF s.mode = MPIM THEN 1 ELSE np
Slot(s, t) == IF s.mode = MPIM THEN 0 ELSE t
\* with tasks a multiple of the threads, or fewer, every thread gets work
ThreadsSeen(s, n) == IF n <= s.np THEN n ELSE s.np
AllWork(s, n) == n <= s.np \/ n % s.np = 0
Disable(s, lb) == IF HasMpi(s) THEN [s EXCEPT !.dis = @ \cup {lb}] ELSE s
IsDisabled(s, lb) == HasMpi(s) /\ lb \in s.dis
\* rank and block of a disabled section: everything on rank 0, impossible with threads
IfNeeded(s, lb, rank, block, total) ==
  IF ~IsDisabled(s, lb) THEN [err |-> FALSE, rank |-> rank, block |-> block]
  ELSE [err |-> HasPth(s), rank |-> 0, block |-> total]
=============================================================================
