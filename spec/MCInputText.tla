----------------------------- MODULE MCInputText -----------------------------
(* The parser as a state machine that takes one character after the other,     *)
(* checked against what the text contains (Parse) for all short texts; and a   *)
(* reader that takes labels in any order.                                       *)
EXTENDS InputText, TLC, Json
CONSTANTS MaxText, MaxEntries, MaxReads
VARIABLES text, m, es, hist
vars == <<text, m, es, hist>>
Known == {<<97>>, <<97, 97>>, <<97, 49>>, <<98>>}
Lax == {<<97, 97>>}
Chars == {97, 49, 50, 32, NL, EQ, HASH}
\* ------ the machine
M0 == [st |-> "label", buf |-> <<>>, nums |-> <<>>, last |-> <<>>, before |-> "label", out |-> <<>>, ok |-> TRUE]
CheckNums(x) ==
  IF Len(x.nums) < 2 THEN [x EXCEPT !.ok = FALSE]
  ELSE IF ~IsIntText(x.nums[1]) THEN [x EXCEPT !.ok = FALSE]
  ELSE IF x.last \notin Lax /\ IntOf(x.nums[1]) # Len(x.nums) - 1 THEN [x EXCEPT !.ok = FALSE]
  ELSE [x EXCEPT !.out = Append(@, [k |-> "v", l |-> x.last, v |-> x.nums]), !.nums = <<>>]
Save(x, eq) ==
  LET y == [x EXCEPT !.buf = <<>>] IN
  CASE x.st = "label" -> IF x.buf \notin Known THEN [y EXCEPT !.ok = FALSE] ELSE [y EXCEPT !.last = x.buf, !.st = IF eq THEN "text" ELSE "number"]
    [] x.st = "text" -> [y EXCEPT !.out = Append(@, [k |-> "s", l |-> x.last, v |-> <<x.buf>>]), !.st = "label"]
    [] x.st = "number" -> [y EXCEPT !.nums = Append(@, x.buf), !.st = "either"]
    [] OTHER -> y
Step(x, c) ==
  CASE ~x.ok -> x
    [] x.st = "comment" /\ c # NL -> x
    [] x.st = "comment" -> [x EXCEPT !.st = x.before]
    [] c = NL \/ IsSp(c) -> IF x.buf = <<>> THEN x ELSE Save(x, FALSE)
    [] c = HASH -> LET y == IF x.buf = <<>> THEN x ELSE Save(x, FALSE) IN [y EXCEPT !.before = y.st, !.st = "comment"]
    [] c = EQ -> IF x.buf = <<>> THEN x ELSE IF x.st = "text" THEN [x EXCEPT !.buf = Append(@, c)] ELSE Save(x, TRUE)
    [] x.st = "either" -> IF IsNumChar(c) THEN [x EXCEPT !.st = "number", !.buf = <<c>>]
                          ELSE LET y == CheckNums(x) IN [y EXCEPT !.st = "label", !.buf = <<c>>]
    [] OTHER -> [x EXCEPT !.buf = Append(@, c)]
End(x) == LET y == Step(x, NL)  z == IF y.ok /\ y.nums # <<>> THEN CheckNums(y) ELSE y IN
          IF ~z.ok \/ z.st \in {"text", "number"} THEN Refused ELSE [ok |-> TRUE, es |-> z.out]
\* ------ all texts, and all readers
Init == text = <<>> /\ m = M0 /\ es = <<>> /\ hist = <<>>
AddChar == es = <<>> /\ Len(text) < MaxText /\ \E c \in Chars : text' = Append(text, c) /\ m' = Step(m, c) /\ UNCHANGED <<es, hist>>
RLabels == {<<97>>, <<98>>}
AddEntry == text = <<>> /\ hist = <<>> /\ Len(es) < MaxEntries /\ \E l \in RLabels, k \in {"s", "v"} : es' = Append(es, [k |-> k, l |-> l, v |-> <<<<48 + Len(es)>>>>]) /\ UNCHANGED <<text, m, hist>>
RECURSIVE After(_, _)
After(st, h) == IF h = <<>> THEN st ELSE After(Used(st, Head(h)[2], TRUE, FALSE), Tail(h))
Now(k) == After(Store(es, k), SelectSeq(hist, LAMBDA h : h[1] = k))
Read == es # <<>> /\ Len(hist) < MaxReads /\ \E l \in RLabels, k \in {"s", "v"} : Has1(Now(k), l) /\ hist' = Append(hist, <<k, l, Now(k)[l][1]>>) /\ UNCHANGED <<text, m, es>>
Next == AddChar \/ AddEntry \/ Read
Spec == Init /\ [][Next]_vars
\* ------ properties
W == WordsOf(text)
Sane == SaneWords(W.es)
Agree == Sane => End(m) = Parse(text, Known, Lax)
\* layout does not matter: one word a line, or all on one line
Joined(sep) == FoldLeft(LAMBDA a, w : a \o w \o sep, <<>>, W.es)
LayoutFree == Parse(Joined(<<NL>>), Known, Lax) = Parse(text, Known, Lax) /\ Parse(Joined(<<32, 32>>), Known, Lax) = Parse(text, Known, Lax)
NothingElse == LET p == Parse(text, Known, Lax) IN p.ok => Sum([q \in DOMAIN p.es |-> Len(p.es[q].v)]) <= Len(W.es)
\* the n-th read of a label yields its n-th value, or the last one, whatever else is read
InOrder == \A q \in DOMAIN hist :
  LET vals == Map(Sel(es, LAMBDA e : e.k = hist[q][1] /\ e.l = hist[q][2]), LAMBDA e : e.v)
      n == Cardinality({u \in 1 .. q : hist[u][1] = hist[q][1] /\ hist[u][2] = hist[q][2]}) IN
  hist[q][3] = vals[Min2(n, Len(vals))]
Emit == text # <<>> /\ Sane /\ (Len(text) >= MaxText - 1 \/ Parse(text, Known, Lax).ok) => PrintT("@@" \o ToJson([t |-> text]))

EmitReads == Len(hist) = MaxReads => PrintT("@@" \o ToJson([es |-> es, h |-> hist]))
=============================================================================
