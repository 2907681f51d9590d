----------------------------- MODULE MCInputAinur -----------------------------
(* The reader goes through the text letter by letter and through each list line in
   phases (before the dollar, the i, behind it, the rest), over all short texts.   *)
EXTENDS InputAinur, TLC, Json
CONSTANTS MaxLen, Prog
VARIABLES text, pos, line, out, bad
vars == <<text, pos, line, out, bad>>
\* a $ i blank # newline
Letters == {97, 36, 105, 32, 35, 10}
Opening == IF Prog THEN <<35, 35, 10>> ELSE <<>>
Init == text \in {Opening \o <<33>> \o s : s \in UNION {[1 .. n -> Letters] : n \in 0 .. MaxLen}} /\ pos = 1 /\ line = <<>> /\ out = <<>> /\ bad = FALSE
RECURSIVE Phase(_, _, _, _, _)
\* what the phases collect: a, b, rest
Phase(l, i, ph, a, b) ==
  IF ph = 0 THEN IF i > Len(l) THEN [ok |-> FALSE] ELSE IF l[i] = 36 THEN Phase(l, i + 1, 1, a, b) ELSE Phase(l, i + 1, 0, Append(a, l[i]), b)
  ELSE IF ph = 1 THEN IF i > Len(l) THEN [ok |-> FALSE] ELSE IF l[i] # 105 THEN [ok |-> FALSE] ELSE Phase(l, i + 1, 2, a, b)
  ELSE IF i <= Len(l) /\ l[i] # 32 THEN Phase(l, i + 1, 2, a, Append(b, l[i]))
  ELSE LET u == T!Uncomment(Sub(l, i + 1, Len(l))) IN [ok |-> u # <<>>, a |-> a, b |-> b, rest |-> u]
Close(l) ==
  IF l = <<>> THEN [ok |-> TRUE, t |-> <<10>>]
  ELSE IF l[1] # 33 THEN [ok |-> TRUE, t |-> l \o <<10>>]
  ELSE LET p == Phase(l, 2, 0, <<>>, <<>>) IN
       IF ~p.ok THEN [ok |-> FALSE, t |-> <<>>]
       ELSE LET ws == T!Words(p.rest) IN
            [ok |-> TRUE, t |-> FoldLeft(LAMBDA acc, q : acc \o p.a \o DigitsOf(q - 1) \o p.b \o <<61>> \o ws[q] \o (IF Prog THEN <<59>> ELSE <<>>) \o <<10>>, <<>>, [q \in DOMAIN ws |-> q])]
Next ==
  /\ pos <= Len(text) + 1 /\ ~bad
  /\ IF pos > Len(text) \/ text[pos] = 10
     THEN /\ out' = out \o Close(line).t /\ bad' = ~Close(line).ok /\ line' = <<>>
     ELSE line' = Append(line, text[pos]) /\ UNCHANGED <<out, bad>>
  /\ pos' = pos + 1 /\ UNCHANGED text
Spec == Init /\ [][Next]_vars
Done == bad \/ pos = Len(text) + 2
Same == Done => LET w == WrittenOut(text) IN w.ok = ~bad /\ (w.ok => w.t = out)
\* nothing but the list lines changes
Kept == Done /\ ~bad => LET ls == Sel(T!Lines(text), LAMBDA l : ~T!IsRepl(l)) IN
  \A q \in DOMAIN ls : \E a \in 0 .. Len(out) : Sub(out, a + 1, a + Len(ls[q]) + 1) = ls[q] \o <<10>>
Emit == Done => PrintT("@@" \o ToJson([text |-> text]))
=============================================================================
