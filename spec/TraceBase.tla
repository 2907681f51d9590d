------------------------------ MODULE TraceBase ------------------------------
(* Trace validation: the records of one file, taken one by one.  A record with
   e = "S" starts a session.  A trace module supplies
     Reset(r)     the specification's state at the start of a session
     Judge(r,st)  [ok  |-> the record is one the specification allows in st,
                   st  |-> the state after it,
                   exp |-> what the specification expected, for the report]
   A record that is not allowed is reported and the rest of its session skipped,
   so that the other sessions are still checked.                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, skip
tvars == <<l, st, skip>>
TInit == l = 1 /\ st = <<>> /\ skip = TRUE
Report(n, e) == PrintT("@@" \o ToJson([mm |-> n, exp |-> e]))
\* r.x: 0 normal return, 1 std::exception, 2 other exception, 8 no return in time,
\* 9 the process died.  8 and 9 are allowed by no specification.
Died(r) == "x" \in DOMAIN r /\ r.x \in {8, 9}
TNext(Reset(_), Judge(_,_)) ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET r == Trace[l] IN
     IF r.e = "S" THEN st' = Reset(r) /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE IF Died(r) THEN Report(l, "a return or an exception") /\ skip' = TRUE /\ UNCHANGED st
     ELSE LET j == Judge(r, st) IN
          IF j.ok THEN st' = j.st /\ skip' = FALSE
          ELSE Report(l, j.exp) /\ skip' = TRUE /\ UNCHANGED st
Complete == TLCGet("stats").diameter = Len(Trace) + 1
Ok(s)        == [ok |-> TRUE, st |-> s, exp |-> ""]
Same(r, k, v, s) == [ok |-> (k \in DOMAIN r /\ r[k] = v), st |-> s, exp |-> v]
When(c, s, e) == [ok |-> c, st |-> s, exp |-> e]
=============================================================================
