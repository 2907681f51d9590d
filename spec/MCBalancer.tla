----------------------------- MODULE MCBalancer -----------------------------
(* The greedy assignment as a state machine with every tie left open.         *)
EXTENDS Balancer, TLC, Json
CONSTANTS MaxTasks, MaxThreads, MaxWeight
VARIABLES w, T, sh, left
vars == <<w, T, sh, left>>
Init == /\ w \in UNION {[1 .. n -> 0 .. MaxWeight] : n \in 1 .. MaxTasks}
        /\ T \in 1 .. MaxThreads
        /\ sh = Const(T, <<>>)
        /\ left = Range0(Len(w))
Load(t) == LoadOf(sh[t], w, Len(sh[t]))
Used == Min2(T, Len(w))
Next == /\ left # {}
        /\ \E i \in left, t \in 1 .. Used :
             /\ \A j \in left : w[j + 1] <= w[i + 1]
             /\ \A u \in 1 .. Used : Load(t) <= Load(u)
             /\ sh' = [sh EXCEPT ![t] = Append(@, i)]
             /\ left' = left \ {i}
             /\ (left' = {} => PrintT("@@" \o ToJson(<<w, T>>)))
        /\ UNCHANGED <<w, T>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
DonePartition == left = {} => Partition(sh, Len(w))
DoneGreedy == left = {} => Greedy(sh, w)
DoneBalanced == left = {} => Balanced(sh, w)
Ends == <>(left = {})
ASSUME \A n \in 0 .. 12, t \in 1 .. 8 :
         LET d == DefaultSharing(n, t) IN Partition(d, n) /\ Blocks(d, n)
=============================================================================
