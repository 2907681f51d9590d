------------------------------ MODULE MCCanonical ------------------------------
(* A reader that takes the characters one by one, puts the parenthesised texts
   aside, and then multiplies up the terms; TLC shows that it refuses exactly the
   texts that are not well formed and finds the terms and the value specified.   *)
EXTENDS Canonical, TLC, Json
CONSTANTS MaxText, Chars
VARIABLES text, pos, open, prev, inner, fac, term, terms, bad, sum
vars == <<text, pos, open, prev, inner, fac, term, terms, bad, sum>>
Texts == UNION {[1..n -> Chars] : n \in 0..MaxText}
Init == text \in Texts /\ pos = 1 /\ open = FALSE /\ prev = 0 /\ inner = <<>> /\ fac = <<>> /\ term = <<>> /\ terms = <<>> /\ bad = FALSE /\ sum = <<>>
C == text[pos]
Flush(x, xs) == IF x = <<>> THEN xs ELSE Append(xs, x)
Go == pos' = pos + 1 /\ prev' = C /\ UNCHANGED <<text, sum>>
Refused == C = 45 /\ pos > 1 /\ ~(prev \in {40, 43})
Reading == pos <= Len(text) /\ ~bad
Step ==
  /\ Reading
  /\ Go
  /\ IF Refused \/ (C = 40 /\ open) \/ (C = 41 /\ ~open) THEN bad' = TRUE /\ UNCHANGED <<open, inner, fac, term, terms>>
     ELSE IF C = 40 THEN open' = TRUE /\ UNCHANGED <<bad, inner, fac, term, terms>>
     ELSE IF C = 41 THEN /\ open' = FALSE /\ fac' = fac \o <<40>> \o inner \o <<41>> /\ inner' = <<>> /\ UNCHANGED <<term, terms>>
                         /\ bad' = ~Valid("d", NonEmpty(SplitBy(inner, 58)))
     ELSE IF open THEN inner' = Append(inner, C) /\ UNCHANGED <<bad, open, fac, term, terms>>
     ELSE IF C = 42 THEN term' = Flush(fac, term) /\ fac' = <<>> /\ UNCHANGED <<bad, open, inner, terms>>
     ELSE IF C = 43 THEN terms' = Flush(Flush(fac, term), terms) /\ term' = <<>> /\ fac' = <<>> /\ UNCHANGED <<bad, open, inner>>
     ELSE fac' = Append(fac, C) /\ UNCHANGED <<bad, open, inner, term, terms>>
End == /\ pos = Len(text) + 1 /\ ~bad /\ pos' = pos + 1
       /\ bad' = open /\ terms' = Flush(Flush(fac, term), terms) /\ term' = <<>> /\ fac' = <<>> /\ UNCHANGED <<text, open, prev, inner, sum>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Over == bad \/ pos = Len(text) + 2
\* a term between two plus signs may consist of stars only: it has no factors and does not count
Agree == Over => /\ bad = ~WellFormed("d", text)
                 /\ ~bad => NonEmpty(terms) = NonEmpty(Terms(text))
One(x) == [n |-> 1, m |-> <<IntN(x)>>]
Env == <<[n |-> <<97>>, v |-> One(3)], [n |-> <<98>>, v |-> One(5)]>>
\* addition of the terms, multiplication of the factors, in any grouping: numbers
RECURSIVE Prod(_)
Prod(fs) == IF fs = <<>> THEN 1 ELSE (IF fs[1] = <<97>> THEN 3 ELSE IF fs[1] = <<98>> THEN 5 ELSE IF Paren(fs[1]) THEN Value("d", Inner(fs[1])).a ELSE IntOf(fs[1])) * Prod(Tail(fs))
RECURSIVE Total(_)
Total(ts) == IF ts = <<>> THEN 0 ELSE (IF \E q \in DOMAIN ts[1] : ts[1][q] \in {<<97>>, <<98>>} THEN Prod(ts[1]) ELSE 0) + Total(Tail(ts))
Numbers == (Over /\ ~bad) => LET v == Evaluate("d", text, Env, One(0)) IN v.ok => v.v.m[1] = IntN(Total(terms))
Emit == Over => PrintT("@@" \o ToJson([t |-> text, ok |-> ~bad]))
=============================================================================
