------------------------------ MODULE InputText ------------------------------
(* The label=value input format (InputNg.h): what a text contains, and what   *)
(* reading its labels one after another yields.                                *)
EXTENDS NumText
NL == 10  EQ == 61  HASH == 35  BANG == 33  DOLLAR == 36  LPAR == 40  RPAR == 41  COMMA == 44  LBR == 91  RBR == 93
IsSp(c) == c \in {32, 9}
\* a character a value of a list may begin with
IsNumChar(c) == c \in 48 .. 58 \cup {46, 43, 45, LPAR, RPAR, COMMA}
Refused == [ok |-> FALSE, es |-> <<>>]
Lines(t) == SplitBy(t, NL)
Uncomment(l) == LET p == FirstAt(l, LAMBDA c : c = HASH) IN IF p = 0 THEN l ELSE Sub(l, 1, p - 1)
RECURSIVE Words(_)
Words(l) ==
  LET a == FirstAt(l, LAMBDA c : ~IsSp(c)) IN
  IF a = 0 THEN <<>>
  ELSE LET m == Sub(l, a, Len(l))  e == FirstAt(m, LAMBDA c : IsSp(c)) IN
       IF e = 0 THEN <<m>> ELSE <<Sub(m, 1, e - 1)>> \o Words(Sub(m, e, Len(m)))
\* --- replacement lines: !A$iB v0 v1 ... stands for A0B=v0, A1B=v1, ...
IsRepl(l) == l # <<>> /\ l[1] = BANG
ReplOf(l) ==
  LET d == FirstAt(l, LAMBDA c : c = DOLLAR)
      sp == FirstAt(Sub(l, d + 1, Len(l)), LAMBDA c : IsSp(c)) + d
      a == Sub(l, 2, d - 1)  b == Sub(l, d + 2, sp - 1)
      rest == Uncomment(Sub(l, sp + 1, Len(l)))  ws == Words(rest) IN
  IF d = 0 \/ d >= Len(l) THEN Refused
  ELSE IF l[d + 1] # 105 \/ sp = d \/ rest = <<>> THEN Refused
  ELSE [ok |-> TRUE, es |-> [i \in DOMAIN ws |-> a \o DigitsOf(i - 1) \o b \o <<EQ>> \o ws[i]]]
\* the words of a text: [ok, es]
WordsOf(t) ==
  LET ls == Lines(t)
      ws == [q \in DOMAIN ls |-> IF IsRepl(ls[q]) THEN ReplOf(ls[q]) ELSE [ok |-> TRUE, es |-> Words(Uncomment(ls[q]))]] IN
  IF \E q \in DOMAIN ws : ~ws[q].ok THEN Refused
  ELSE [ok |-> TRUE, es |-> FoldLeft(LAMBDA acc, w : acc \o w.es, <<>>, ws)]
\* --- entries: [k |-> "s", l, v] for label=value, [k |-> "v", l, v] for label count values
EqAt(w) == FirstAt(w, LAMBDA c : c = EQ)
RunOf(ws) == LET p == FirstAt(ws, LAMBDA w : ~IsNumChar(w[1])) IN IF p = 0 THEN Len(ws) ELSE p - 1
Rest(ws, n) == Sub(ws, n + 1, Len(ws))
RECURSIVE Entries(_, _, _)
\* known: labels the checker lets pass, lax: labels whose counts it takes care of itself
Entries(ws, known, lax) ==
  IF ws = <<>> THEN [ok |-> TRUE, es |-> <<>>]
  ELSE LET w == ws[1]  p == EqAt(w)  lab == IF p = 0 THEN w ELSE Sub(w, 1, p - 1)
           One(e, n) == LET r == Entries(Rest(ws, n), known, lax) IN IF r.ok THEN [ok |-> TRUE, es |-> <<e>> \o r.es] ELSE Refused IN
       IF lab \notin known THEN Refused
       ELSE IF p > 0 /\ p < Len(w) THEN One([k |-> "s", l |-> lab, v |-> <<Sub(w, p + 1, Len(w))>>], 1)
       ELSE IF Len(ws) = 1 THEN Refused
       ELSE IF p > 0 THEN One([k |-> "s", l |-> lab, v |-> <<ws[2]>>], 2)
       ELSE LET n == RunOf(Rest(ws, 2)) IN
            IF n = 0 \/ ~IsIntText(ws[2]) THEN Refused
            ELSE IF lab \notin lax /\ IntOf(ws[2]) # n THEN Refused
            ELSE One([k |-> "v", l |-> lab, v |-> Sub(ws, 2, n + 2)], n + 2)
Parse(t, known, lax) == LET w == WordsOf(t) IN IF w.ok THEN Entries(w.es, known, lax) ELSE Refused
\* texts with equal signs in odd places are not part of the format
SaneWords(ws) ==
  /\ \A q \in DOMAIN ws : ws[q][1] # EQ /\ (EqAt(ws[q]) > 0 => ~IsNumChar(ws[q][1]) \/ (q > 1 /\ EqAt(ws[q - 1]) = Len(ws[q - 1])))
  /\ \A q \in DOMAIN ws : EqAt(ws[q]) > 0 /\ EqAt(ws[q]) < Len(ws[q]) => ws[q][EqAt(ws[q]) + 1] # EQ
\* the count of a list has no equal sign
  /\ \A q \in 2 .. Len(ws) : EqAt(ws[q]) > 0 /\ EqAt(ws[q - 1]) = 0 => IsNumChar(ws[q - 1][1])
\* --- reading: a store maps a label to the values it still has, in order
Labels(es, k) == {es[q].l : q \in {q \in DOMAIN es : es[q].k = k}}
Store(es, k) == [lab \in Labels(es, k) |-> Map(Sel(es, LAMBDA e : e.k = k /\ e.l = lab), LAMBDA e : e.v)]
Has1(st, lab) == lab \in DOMAIN st /\ st[lab] # <<>>
\* a value that is read is used up if another one follows (or if the caller says so)
Used(st, lab, clean, force) == IF clean /\ (Len(st[lab]) > 1 \/ force) THEN [st EXCEPT ![lab] = Tail(@)] ELSE st
Label(l) == IF l # <<>> /\ l[Len(l)] = EQ THEN Sub(l, 1, Len(l) - 1) ELSE l
NoNum == [ok |-> FALSE, v |-> 0]
Whole(t) == IF IsIntText(t) THEN [ok |-> TRUE, v |-> IntOf(t)] ELSE NoNum
Real(t) == IF IsRealText(t) THEN [ok |-> TRUE, v |-> Milli(t)] ELSE NoNum
RealInt(t) == IF IsRealText(t) /\ Milli(t) % 1000 = 0 THEN [ok |-> TRUE, v |-> Milli(t) \div 1000] ELSE NoNum
Complex(t) ==
  LET p == FirstAt(t, LAMBDA c : c = COMMA)  re == Sub(t, 2, p - 1)  im == Sub(t, p + 1, Len(t) - 1) IN
  IF t = <<>> THEN NoNum
  ELSE IF t[1] # LPAR THEN IF IsRealText(t) THEN [ok |-> TRUE, v |-> <<Milli(t), 0>>] ELSE NoNum
  ELSE IF p = 0 \/ t[Len(t)] # RPAR THEN NoNum
  ELSE IF IsRealText(re) /\ IsRealText(im) THEN [ok |-> TRUE, v |-> <<Milli(re), Milli(im)>>] ELSE NoNum
Elem(t, k) == CASE k = "s" -> [ok |-> TRUE, v |-> t] [] k \in {"i", "u"} -> RealInt(t) [] k = "d" -> Real(t) [] k = "z" -> Complex(t)
ScalarOf(t, k) == CASE k = "s" -> [ok |-> TRUE, v |-> t] [] k \in {"i", "u", "l"} -> Whole(t) [] k \in {"d", "f"} -> Real(t)
All(es) == IF \A q \in DOMAIN es : es[q].ok THEN [ok |-> TRUE, v |-> [q \in DOMAIN es |-> es[q].v]] ELSE NoNum
ListOf(v, k) == All([q \in 1 .. Len(v) - 1 |-> Elem(v[q + 1], k)])
\* v: all numbers of a label, rows and columns first
MatrixFrom(v, k) ==
  IF ~IsIntText(v[1]) \/ ~IsIntText(v[2]) THEN NoNum
  ELSE LET r == IntOf(v[1])  c == IntOf(v[2]) IN
       IF r <= 0 \/ c <= 0 THEN NoNum
       ELSE IF Len(v) < 2 + r * c THEN NoNum
       ELSE LET es == All([q \in 1 .. r * c |-> Elem(v[2 + q], k)]) IN
            IF ~es.ok THEN NoNum ELSE [ok |-> TRUE, v |-> [i \in 1 .. r |-> Sub(es.v, 1 + (i - 1) * c, i * c)]]
\* label[key]=value lines
Prefix(l) == l \o <<LBR>>
Keys(st, lab) == {m \in DOMAIN st : Len(m) > Len(lab) + 1 /\ Sub(m, 1, Len(lab) + 1) = Prefix(lab)}
KeyOf(m, lab) == Sub(m, Len(lab) + 2, Len(m) - 1)
MapOf(st, lab) ==
  LET ms == Keys(st, lab) IN
  IF \E m \in ms : ~Has(m, RBR) \/ ~IsRealText(st[m][1][1]) THEN NoNum
  ELSE [ok |-> TRUE, v |-> {<<KeyOf(m, lab), Milli(st[m][1][1])>> : m \in ms}]
=============================================================================
