------------------------------ MODULE MCPredicate ------------------------------
(* A reader of predicates, character by character, and an evaluation that stops
   as soon as the value is known.  For all short texts the reader finds the
   formula that Predicate describes, and the evaluation gives its logical value. *)
EXTENDS Predicate, TLC, Json
CONSTANTS MaxText, Chars
VARIABLES text, pos, alts, conj, cur, bad, phase, tb, i, j, val
vars == <<text, pos, alts, conj, cur, bad, phase, tb, i, j, val>>
Texts == UNION {[1..n -> Chars] : n \in 0..MaxText}
NoCur == [l |-> <<>>, op |-> <<>>, r |-> <<>>]
Init == /\ text \in Texts /\ pos = 1 /\ alts = <<>> /\ conj = <<>> /\ cur = NoCur /\ bad = FALSE
        /\ phase = "read" /\ tb = <<>> /\ i = 1 /\ j = 1 /\ val = "?"
C == text[pos]
EndCmp == IF cur = NoCur THEN conj ELSE Append(conj, cur)
EndBad == bad \/ (cur # NoCur /\ (cur.l = <<>> \/ cur.op = <<>> \/ cur.r = <<>>))
\* the operator that starts here, unless one was found before
Here == IF cur.op # <<>> THEN 0
        ELSE IF pos < Len(text) /\ Sub(text, pos, pos + 1) \in Two THEN 2 ELSE IF <<C>> \in One THEN 1 ELSE 0
ReadAmp == C = 38 /\ conj' = EndCmp /\ bad' = EndBad /\ cur' = NoCur /\ pos' = pos + 1 /\ UNCHANGED alts
ReadComma == C = 44 /\ alts' = (IF cur = NoCur /\ conj = <<>> /\ (pos = 1 \/ text[pos - 1] # 38) THEN alts ELSE Append(alts, EndCmp)) /\ conj' = <<>>
             /\ bad' = EndBad /\ cur' = NoCur /\ pos' = pos + 1
ReadOp == ~(C \in {38, 44}) /\ Here > 0 /\ cur' = [cur EXCEPT !.op = Sub(text, pos, pos + Here - 1)] /\ pos' = pos + Here /\ UNCHANGED <<alts, conj, bad>>
ReadSide == ~(C \in {38, 44}) /\ Here = 0 /\ cur' = (IF cur.op = <<>> THEN [cur EXCEPT !.l = Append(@, C)] ELSE [cur EXCEPT !.r = Append(@, C)])
            /\ pos' = pos + 1 /\ UNCHANGED <<alts, conj, bad>>
Read == phase = "read" /\ pos <= Len(text) /\ (ReadAmp \/ ReadComma \/ ReadOp \/ ReadSide) /\ UNCHANGED <<text, phase, tb, i, j, val>>
Finish == /\ phase = "read" /\ pos > Len(text)
          /\ alts' = (IF cur = NoCur /\ conj = <<>> /\ (text = <<>> \/ text[Len(text)] # 38) THEN alts ELSE Append(alts, EndCmp))
          /\ bad' = EndBad /\ phase' = "parsed" /\ cur' = NoCur /\ conj' = <<>> /\ UNCHANGED <<text, pos, tb, i, j, val>>
\* any truth values for the comparisons
Start == /\ phase = "parsed" /\ ~bad
         /\ tb' \in [1..Len(alts) -> UNION {[1..n -> {"t", "f", "e"}] : n \in 0..3}]
         /\ \A q \in DOMAIN alts : Len(tb'[q]) = Len(alts[q])
         /\ phase' = "eval" /\ i' = 1 /\ j' = 1 /\ UNCHANGED <<text, pos, alts, conj, cur, bad, val>>
End(v) == val' = v /\ phase' = "done" /\ UNCHANGED <<i, j>>
Eval == /\ phase = "eval" /\ UNCHANGED <<text, pos, alts, conj, cur, bad, tb>>
        /\ IF i > Len(tb) THEN End("f")
           ELSE IF j > Len(tb[i]) THEN End("t")
           ELSE IF tb[i][j] = "e" THEN End("e")
           ELSE IF tb[i][j] = "t" THEN j' = j + 1 /\ UNCHANGED <<i, val, phase>>
           ELSE i' = i + 1 /\ j' = 1 /\ UNCHANGED <<val, phase>>
Next == Read \/ Finish \/ Start \/ Eval
Spec == Init /\ [][Next]_vars
Strip(c) == [l |-> c.l, op |-> c.op, r |-> c.r]
F == Formula(text, <<44>>, <<38>>)
Agree == phase # "read" => /\ bad = ~WellFormed(F)
                           /\ ~bad => alts = [q \in DOMAIN F |-> [u \in DOMAIN F[q] |-> Strip(F[q][u])]]
Logic == (phase = "done" /\ ~Erroneous(tb)) => (val = "t") = (\E q \in DOMAIN tb : \A u \in DOMAIN tb[q] : tb[q][u] = "t")
Decided == phase = "done" => val = FormulaValue(tb)
Emit == phase = "parsed" => PrintT("@@" \o ToJson([t |-> text, ok |-> ~bad]))
=============================================================================
