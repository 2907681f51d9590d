------------------------------- MODULE MCStore -------------------------------
(* Every history of one file in the bounds, with the store of Store.tla and, beside
   it, what the operations mean by themselves: the log of operations.              *)
EXTENDS Store, TLC, Json
CONSTANTS MaxLen, EmitLen, Crash
VARIABLES file, h, hist, opened
vars == <<file, h, hist, opened>>
P == {<<"a">>, <<"g">>, <<"g", "x">>}
V == {[k |-> "int", a |-> <<1>>], [k |-> "vd", a |-> <<2>>], [k |-> "vd", a |-> <<>>]}
Init == file = None /\ h = NoHandle /\ hist = <<>> /\ opened = FALSE
Log(o) == hist' = Append(hist, o)
Busy == h.f # ""
Do(o, m) == h' = [h EXCEPT !.m = m, !.dirty = @ \cup (IF m # h.m THEN {o.p} ELSE {})] /\ Log(o) /\ UNCHANGED <<file, opened>>
Step ==
  /\ Len(hist) < MaxLen
  /\ \/ /\ ~Busy
        /\ \E mode \in {"trunc", "excl", "rdw"} :
             /\ Log([e |-> "open", mode |-> mode])
             /\ IF Opens(file, mode) THEN h' = OpenH("f", file, mode) ELSE UNCHANGED h
             /\ opened' = Opens(file, mode)
             /\ UNCHANGED file
     \/ /\ Busy
        /\ \/ \E p \in P, v \in V, mode \in {0, 1} : Do([e |-> "put", p |-> p, v |-> v, mode |-> mode], Put(h.m, p, v, mode))
           \/ Do([e |-> "group", p |-> <<"g">>], Group(h.m, <<"g">>))
           \/ h' = Flushed(h) /\ Log([e |-> "flush"]) /\ UNCHANGED <<file, opened>>
           \/ h' = NoHandle /\ file' = Closed(file, h) /\ Log([e |-> "close"]) /\ UNCHANGED opened
           \/ Crash /\ h' = NoHandle /\ file' = Crashed(file, h) /\ Log([e |-> "kill"]) /\ UNCHANGED opened
Next == /\ Step
        /\ IF Len(hist') = EmitLen THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
(* --- the meaning of a history, without files and handles: the operations that took
   place on the present contents are those since the last open that emptied the file *)
Upto(s, n) == SubSeq(s, 1, n)
IsOpenOk(n) == \* the open at position n succeeded: kept in the log itself would do; recomputed here
  LET RECURSIVE St(_)
      St(k) == IF k = 0 THEN "none"
               ELSE LET o == hist[k]  s == St(k - 1) IN
                    CASE o.e = "open" -> IF o.mode = "trunc" \/ (o.mode = "excl" /\ s = "none") \/ (o.mode = "rdw" /\ s = "ok") THEN "open" ELSE s
                      [] o.e = "close" -> "ok"
                      [] o.e = "kill" -> "dead"
                      [] OTHER -> s
  IN St(n) = "open" /\ (n = 1 \/ St(n - 1) # "open")
Fresh == {n \in DOMAIN hist : hist[n].e = "open" /\ hist[n].mode \in {"trunc", "excl"} /\ IsOpenOk(n)}
Start == IF Fresh = {} THEN 0 ELSE CHOOSE n \in Fresh : \A q \in Fresh : q <= n
Names(n) == LET RECURSIVE M(_)
                M(k) == IF k <= Start THEN EmptyMap
                        ELSE LET o == hist[k] IN
                             IF o.e = "put" THEN Put(M(k - 1), o.p, o.v, o.mode)
                             ELSE IF o.e = "group" THEN Group(M(k - 1), o.p) ELSE M(k - 1)
            IN M(n)
Syncs == {n \in DOMAIN hist : n > Start /\ hist[n].e \in {"flush", "close"}}
LastSync == IF Syncs = {} THEN 0 ELSE CHOOSE n \in Syncs : \A q \in Syncs : q <= n
\* a closed file has everything written before it was closed
ClosedComplete == ~Busy /\ file.st = "ok" => file.m = Names(LastSync)
\* one whose writer died before any flush or close is not readable
DeadRefused == ~Busy /\ Start # 0 /\ LastSync = 0 => ~Opens(file, "read")
\* what a reader gets for sure in a torn file is what was there at the last flush
TornSure == file.st = "torn" => /\ file.m = Names(LastSync)
                                /\ \A p \in P : Sure(file, p) => (Has(file.m, p) <=> Has(Names(Len(hist)), p))
                                /\ \A p \in DOMAIN file.m : Sure(file, p) => file.m[p] = Names(Len(hist))[p]
\* last write wins: a plain value under a name is the one of the last write that counts
LastWins ==
  Busy => \A p \in DOMAIN h.m :
    h.m[p].k \in {"int", "vd"} =>
      \E n \in DOMAIN hist :
        /\ n > Start /\ hist[n].e = "put" /\ hist[n].p = p /\ hist[n].v = h.m[p]
        /\ \A q \in n + 1 .. Len(hist) : hist[q].e = "put" /\ hist[q].mode = 1 => ~IsPrefix1(hist[q].p, p)
Members == Busy => \A p \in DOMAIN h.m : ParentOk(h.m, p)
=============================================================================
