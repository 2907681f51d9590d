------------------------------- MODULE MCParams -------------------------------
(* The search as it is done, one label after another, from the solver's own number
   down and then without a number: it ends, and it finds what Params.tla says.  The
   files and solvers are emitted. *)
EXTENDS Params, TLC, Json
CONSTANTS MaxNum
VARIABLES file, ind, at, got
vars == <<file, ind, at, got>>
N == "Steps"
Slots == -1 .. MaxNum
Files == {[q \in 1 .. Cardinality(s) |-> LET i == SetToSeq(s)[q] IN [p |-> "L", i |-> i, n |-> N, v |-> 20 + i]] : s \in SUBSET Slots}
Init == /\ file \in Files /\ ind \in Slots /\ at = ind /\ got = 0
        /\ PrintT("@@" \o ToJson([file |-> [q \in DOMAIN file |-> file[q].i], ind |-> ind]))
Look == /\ got = 0 /\ at >= 0
        /\ IF Has(file, "L", at, N) THEN got' = Of(file, "L", at, N) /\ at' = at ELSE at' = at - 1 /\ got' = 0
        /\ UNCHANGED <<file, ind>>
Bare == /\ got = 0 /\ at = -1
        /\ got' = (IF Has(file, "L", -1, N) THEN Of(file, "L", -1, N) ELSE Default[N])
        /\ UNCHANGED <<file, ind, at>>
Next == Look \/ Bare
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == got # 0 => got = Setting(file, "L", ind, N)
\* solvers between two settings do as the lower one
Inherits == ind > 0 /\ ~Has(file, "L", ind, N) => Setting(file, "L", ind, N) = Setting(file, "L", ind - 1, N)
\* what later solvers set is nothing to earlier ones
Later == \A i \in ind + 1 .. MaxNum : Setting(SelectSeq(file, LAMBDA e : e.i # i), "L", ind, N) = Setting(file, "L", ind, N)
Ends == <>(got # 0)
=============================================================================
