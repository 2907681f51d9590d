--------------------------- MODULE MCParallelLoop ---------------------------
(* The design of the threaded loop: the creator starts Min(N,T) workers one after
   another, each worker walks what the balancer gives it and stops at the first
   order number beyond the tasks, the creator joins the workers in order and
   returns.  Checked: every observable event is one ParallelLoop allows, the
   workers finish, nothing is lost.  Complete histories are emitted as schedules
   that are then forced on the real threads.                                  *)
EXTENDS ParallelLoop, Balancer, TLC, Json
CONSTANTS Configs, Kind, Emit
VARIABLES cfg, sh, started, pos, busy, fin, joined, obs, bad, hist
vars == <<cfg, sh, started, pos, busy, fin, joined, obs, bad, hist>>
Sharings(N, T) ==
  IF Kind = "default" THEN {DefaultSharing(N, T)}
  ELSE IF Kind = "over" THEN {[t \in 1 .. T |-> Idx(CeilDiv(N, T), LAMBDA p : (t - 1) * CeilDiv(N, T) + p - 1)]}
  ELSE LET f == [1 .. N -> 1 .. Min2(N, T)] IN
       {[t \in 1 .. T |-> SelectSeq(Idx(N, LAMBDA i : i - 1), LAMBDA i : g[i + 1] = t)] : g \in f}
Init == /\ cfg \in Configs
        /\ sh \in Sharings(cfg[1], cfg[2])
        /\ started = 0 /\ joined = 0
        /\ pos = Const(cfg[2], 1) /\ busy = Const(cfg[2], FALSE) /\ fin = Const(cfg[2], FALSE)
        /\ obs = LoopState(0, cfg[1], cfg[2]) /\ bad = FALSE /\ hist = <<>>
N == cfg[1]
Actual == Min2(cfg[2], N)
Observe(e) == LET r == Apply(obs, e) IN obs' = r.st /\ bad' = (bad \/ ~r.ok) /\ hist' = (IF Emit THEN Append(hist, e) ELSE hist)
Start == /\ started < Actual /\ started' = started + 1
         /\ UNCHANGED <<cfg, sh, pos, busy, fin, joined, obs, bad, hist>>
More(t) == pos[t] <= Len(sh[t]) /\ sh[t][pos[t]] < N
WBegin(t) == /\ t <= started /\ ~busy[t] /\ ~fin[t] /\ More(t)
             /\ busy' = [busy EXCEPT ![t] = TRUE]
             /\ Observe(<<0, t - 1, sh[t][pos[t]]>>)
             /\ UNCHANGED <<cfg, sh, started, pos, fin, joined>>
WEnd(t) == /\ busy[t]
           /\ busy' = [busy EXCEPT ![t] = FALSE]
           /\ pos' = [pos EXCEPT ![t] = @ + 1]
           /\ Observe(<<1, t - 1, sh[t][pos[t]]>>)
           /\ UNCHANGED <<cfg, sh, started, fin, joined>>
WExit(t) == /\ t <= started /\ ~busy[t] /\ ~fin[t] /\ ~More(t)
            /\ fin' = [fin EXCEPT ![t] = TRUE]
            /\ UNCHANGED <<cfg, sh, started, pos, busy, joined, obs, bad, hist>>
Join == /\ started = Actual /\ joined < Actual /\ fin[joined + 1]
        /\ joined' = joined + 1
        /\ UNCHANGED <<cfg, sh, started, pos, busy, fin, obs, bad, hist>>
Ret == /\ started = Actual /\ joined = Actual /\ ~obs.ret
       /\ Observe(<<2, 0, 0>>)
       /\ (Emit => PrintT("@@" \o ToJson(<<cfg[1], cfg[2], sh, hist>>)))
       /\ UNCHANGED <<cfg, sh, started, pos, busy, fin, joined>>
Next == Start \/ (\E t \in 1 .. cfg[2] : WBegin(t) \/ WEnd(t) \/ WExit(t)) \/ Join \/ Ret
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NeverBad == ~bad
AllOnce == obs.ret => obs.ended = Range0(N)
QuietAfterReturn == obs.ret => \A t \in DOMAIN busy : ~busy[t]
Finishes == <>obs.ret
\* for emission: without the start/exit/join steps that do not show
Quick == Start \/ (\E t \in 1 .. cfg[2] : WExit(t)) \/ Join
EmitNext == IF ENABLED Quick THEN
              \/ (ENABLED Start /\ Start)
              \/ (~ENABLED Start /\ \E t \in 1 .. cfg[2] : WExit(t) /\ \A u \in 1 .. t - 1 : ~ENABLED WExit(u))
              \/ (~ENABLED Start /\ (\A t \in 1 .. cfg[2] : ~ENABLED WExit(t)) /\ Join)
            ELSE (\E t \in 1 .. cfg[2] : WBegin(t) \/ WEnd(t)) \/ Ret
EmitSpec == Init /\ [][EmitNext]_vars
C1 == {<<n, t>> : n \in 0 .. 4, t \in 1 .. 3}
C2 == {<<1, 1>>, <<1, 3>>, <<2, 2>>, <<3, 2>>, <<3, 3>>, <<4, 2>>, <<4, 3>>, <<5, 2>>, <<2, 5>>}
C3 == {<<3, 2>>, <<3, 3>>}
C4 == {<<n, t>> : n \in 0 .. 6, t \in 1 .. 4}
=============================================================================
