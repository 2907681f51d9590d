---------------------------- MODULE MCProcesses ----------------------------
(* Elements gathered one by one at one process, each step of each process in any order,
   and loops shared among processes that wait for each other at the end.
   sync: a message leaves only when it is being received.
   An element of a pair goes as two messages, with tags e and 2 e.                       *)
EXTENDS Processes, Json
CONSTANTS MaxNp, MaxN
VARIABLES job, pc, chan, got, ran, in
vars == <<job, pc, chan, got, ran, in>>
Emit(v) == PrintT("@@" \o ToJson(v))
Jobs == UNION {[kind : {"gather"}, np : {p}, n : 0 .. MaxN, root : 0 .. p - 1, pair : BOOLEAN, sync : BOOLEAN] : p \in 1 .. MaxNp}
        \cup [kind : {"loop"}, np : 1 .. MaxNp, n : 0 .. MaxN, root : {0}, pair : {FALSE}, sync : {FALSE}]
Mine(j, r) == SelectSeq(Idx(j.n, LAMBDA e : e - 1), LAMBDA e : Owner(j.n, j.np, e) = r)
\* the messages of process r, in order: <<tag, element, part>>
Msgs(j, r) == FoldLeft(LAMBDA a, e : a \o (IF j.pair THEN <<<<e, e, 1>>, <<2 * e, e, 2>>>> ELSE <<<<e, e, 0>>>>), <<>>, Mine(j, r))
\* what the root receives, in order: <<source, tag, element, part>>
Wants(j) == FoldLeft(LAMBDA a, r : IF r = j.root THEN a ELSE a \o Map(Msgs(j, r), LAMBDA x : <<r, x[1], x[2], x[3]>>), <<>>, Idx(j.np, LAMBDA r : r - 1))
Procs == 0 .. job.np - 1
Init == /\ job \in Jobs
        /\ pc = [r \in 0 .. job.np - 1 |-> 1] /\ chan = [r \in 0 .. job.np - 1 |-> <<>>] /\ got = <<>>
        /\ ran = [e \in 0 .. job.n - 1 |-> 0] /\ in = {}
Len0(r) == Len(Msgs(job, r))
Send(r) == /\ job.kind = "gather" /\ ~job.sync /\ r # job.root /\ pc[r] <= Len0(r)
           /\ chan' = [chan EXCEPT ![r] = Append(@, Msgs(job, r)[pc[r]])]
           /\ pc' = [pc EXCEPT ![r] = @ + 1] /\ UNCHANGED <<job, got, ran, in>>
\* the oldest message of the source with the tag
First(s, tag) == IF \E i \in DOMAIN s : s[i][1] = tag THEN CHOOSE i \in DOMAIN s : s[i][1] = tag /\ \A q \in 1 .. i - 1 : s[q][1] # tag ELSE 0
Recv == LET w == Wants(job)[pc[job.root]]  i == First(chan[w[1]], w[2]) IN
        /\ i # 0
        /\ got' = Append(got, <<chan[w[1]][i][2], chan[w[1]][i][3], w[1]>>)
        /\ chan' = [chan EXCEPT ![w[1]] = RemoveAt(@, i)]
        /\ pc' = [pc EXCEPT ![job.root] = @ + 1] /\ UNCHANGED <<job, ran, in>>
Meet == LET w == Wants(job)[pc[job.root]]  r == w[1] IN
        /\ pc[r] <= Len0(r) /\ Msgs(job, r)[pc[r]][1] = w[2]
        /\ got' = Append(got, <<Msgs(job, r)[pc[r]][2], Msgs(job, r)[pc[r]][3], r>>)
        /\ pc' = [pc EXCEPT ![job.root] = @ + 1, ![r] = @ + 1] /\ UNCHANGED <<job, chan, ran, in>>
Receive == job.kind = "gather" /\ pc[job.root] <= Len(Wants(job)) /\ (IF job.sync THEN Meet ELSE Recv)
(* loops *)
Work(r) == /\ job.kind = "loop" /\ pc[r] <= Len(Mine(job, r))
           /\ ran' = [ran EXCEPT ![Mine(job, r)[pc[r]]] = @ + 1]
           /\ pc' = [pc EXCEPT ![r] = @ + 1] /\ UNCHANGED <<job, chan, got, in>>
Enter(r) == /\ job.kind = "loop" /\ pc[r] = Len(Mine(job, r)) + 1 /\ r \notin in
            /\ in' = in \cup {r} /\ UNCHANGED <<job, pc, chan, got, ran>>
Leave(r) == /\ job.kind = "loop" /\ in = Procs /\ pc[r] = Len(Mine(job, r)) + 1
            /\ pc' = [pc EXCEPT ![r] = @ + 1] /\ UNCHANGED <<job, chan, got, ran, in>>
Next == Receive \/ \E r \in Procs : Send(r) \/ Work(r) \/ Enter(r) \/ Leave(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Over2(r) == IF job.kind = "loop" THEN pc[r] = Len(Mine(job, r)) + 2
            ELSE IF r = job.root THEN pc[r] = Len(Wants(job)) + 1 ELSE pc[r] = Len0(r) + 1
Done == \A r \in Procs : Over2(r)
\* what is received is what was meant
Right == \A i \in DOMAIN got : got[i] = LET w == Wants(job)[i] IN <<w[3], w[4], w[1]>>
Nothing == (Done /\ job.kind = "gather") => \A r \in Procs : chan[r] = <<>>
Barrier == job.kind = "loop" => ((\E r \in Procs : Over2(r)) => \A e \in DOMAIN ran : ran[e] = 1)
Shared == job.kind = "loop" => Partition(Idx(job.np, LAMBDA r : Mine(job, r - 1)), job.n)
Ends == <>Done
Emitted == (Done /\ ~job.sync) => Emit(job)
=============================================================================
