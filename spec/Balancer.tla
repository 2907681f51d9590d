------------------------------ MODULE Balancer ------------------------------
(* How tasks 0..N-1 are shared among T threads.  A sharing is a sequence of T
   sequences: what thread t-1 is asked to do, in its order.  Numbers >= N stand
   for order numbers beyond the tasks; a loop skips them.                     *)
EXTENDS Lists
CeilDiv(a, b) == (a + b - 1) \div b
Valid(sh, N) == [t \in DOMAIN sh |-> SelectSeq(sh[t], LAMBDA x : x < N)]
\* a loop stops at the first invalid order number of a thread
NoGap(sh, N) == \A t \in DOMAIN sh : \A p \in DOMAIN sh[t] :
                  sh[t][p] >= N => \A q \in p .. Len(sh[t]) : sh[t][q] >= N
Partition(sh, N) ==
  /\ \A t \in DOMAIN sh : \A p \in DOMAIN sh[t] : sh[t][p] >= 0
  /\ NoGap(sh, N)
  /\ LET v == Valid(sh, N)
         flat == FoldLeft(LAMBDA a, s : a \o s, <<>>, v) IN
     Len(flat) = N /\ Elems(flat) = Range0(N)
(* --- consecutive blocks ---------------------------------------------------- *)
Blocks(sh, N) ==
  LET v == Valid(sh, N)
      T == Len(sh)
      c == IF N = 0 THEN 0 ELSE CeilDiv(N, T)
      flat == FoldLeft(LAMBDA a, s : a \o s, <<>>, v)
  IN /\ flat = Idx(N, LAMBDA i : i - 1)
     /\ \A t \in 1 .. T : Len(v[t]) <= c
     /\ \A t \in 1 .. T - 1 : Len(v[t]) < c => \A u \in t + 1 .. T : Len(v[u]) = 0
\* the sharing the design describes
DefaultSharing(N, T) ==
  LET c == CeilDiv(N, T) IN
  [t \in 1 .. T |-> SelectSeq(Idx(c, LAMBDA p : (t - 1) * c + p - 1), LAMBDA x : x < N)]
(* --- heaviest first, each to a least loaded thread -------------------------- *)
\* state of the assignment: how many of each thread's list have been handed out
LoadOf(s, w, n) == Sum([p \in 1 .. n |-> w[s[p] + 1]])
Rest(sh, w, got) == UNION {{w[sh[t][p] + 1] : p \in got[t] + 1 .. Len(sh[t])} : t \in DOMAIN sh}
Assignable(sh, w, got, used, t) ==
  /\ t <= used
  /\ got[t] < Len(sh[t])
  /\ LET x == w[sh[t][got[t] + 1] + 1] IN
     /\ \A y \in Rest(sh, w, got) : y <= x
     /\ \A u \in 1 .. used : LoadOf(sh[t], w, got[t]) <= LoadOf(sh[u], w, got[u])
RECURSIVE GreedyFrom(_, _, _, _)
GreedyFrom(sh, w, got, used) ==
  IF \A t \in DOMAIN sh : got[t] = Len(sh[t]) THEN TRUE
  ELSE LET A == {t \in DOMAIN sh : Assignable(sh, w, got, used, t)} IN
       A # {} /\ LET t == CHOOSE t \in A : TRUE IN GreedyFrom(sh, w, [got EXCEPT ![t] = @ + 1], used)
\* threads beyond the number of tasks are not used
Greedy(sh, w) == LET N == Len(w) T == Len(sh) IN
  /\ Partition(sh, N)
  /\ \A t \in DOMAIN sh : \A p \in DOMAIN sh[t] : sh[t][p] < N
  /\ GreedyFrom(sh, w, Const(T, 0), IF N > 0 THEN Min2(N, T) ELSE T)
Balanced(sh, w) == LET L(t) == LoadOf(sh[t], w, Len(sh[t]))
                       U == IF Len(w) > 0 THEN Min2(Len(w), Len(sh)) ELSE Len(sh) IN
  \A t \in 1 .. U : sh[t] = <<>> \/
     \A u \in 1 .. U : L(t) <= L(u) + MaxOf(Map(sh[t], LAMBDA x : w[x + 1]))
=============================================================================
