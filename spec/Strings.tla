-------------------------------- MODULE Strings --------------------------------
(* String helpers and option lists.                                              *)
EXTENDS NumText
IsDelim(ds, c) == \E q \in DOMAIN ds : ds[q] = c
\* the maximal pieces without delimiters, from the left
RECURSIVE Split(_, _)
Split(s, ds) ==
  LET p == FirstAt(s, LAMBDA c : IsDelim(ds, c)) IN
  IF p = 0 THEN (IF s = <<>> THEN <<>> ELSE <<s>>)
  ELSE (IF p = 1 THEN <<>> ELSE <<Sub(s, 1, p - 1)>>) \o Split(Sub(s, p + 1, Len(s)), ds)
StartsAt(s, f, q) == q + Len(f) - 1 <= Len(s) /\ Sub(s, q, q + Len(f) - 1) = f
\* every occurrence from the left that does not overlap the one before
RECURSIVE Replace(_, _, _)
Replace(s, f, t) ==
  IF f = <<>> \/ Len(s) < Len(f) THEN s
  ELSE IF StartsAt(s, f, 1) THEN t \o Replace(Sub(s, Len(f) + 1, Len(s)), f, t)
  ELSE <<s[1]>> \o Replace(Tail(s), f, t)
\* a label is rewritten, leftmost first, until it is gone
HasText(s, f) == \E q \in DOMAIN s : StartsAt(s, f, q)
SubstOne(s, f, t) ==
  IF ~HasText(s, f) THEN s
  ELSE LET p == CHOOSE q \in DOMAIN s : StartsAt(s, f, q) /\ \A u \in 1..(q - 1) : ~StartsAt(s, f, u) IN
       Sub(s, 1, p - 1) \o t \o Sub(s, p + Len(f), Len(s))
RECURSIVE Subst(_, _, _)
Subst(s, f, t) == IF HasText(s, f) THEN Subst(SubstOne(s, f, t), f, t) ELSE s
LastAt(s, c) == LET e == {q \in DOMAIN s : s[q] = c} IN IF e = {} THEN 0 ELSE CHOOSE q \in e : \A u \in e : q >= u
BaseName(s) == Sub(s, LastAt(s, 47) + 1, Len(s))
Stem(s) == IF LastAt(s, 46) = 0 THEN s ELSE Sub(s, 1, LastAt(s, 46) - 1)
IsPlainInt(s) == AllDig(s)
\* atoi: a whole number; the empty text is 0
AtoiOk(s) == s = <<>> \/ IsIntText(s)
Atoi(s) == IF s = <<>> THEN 0 ELSE IntOf(s)
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
\* --- options: mode 0 disabled, 1 permissive, 2 strict
OptionsOk(mode, known, given) == mode = 2 => \A q \in DOMAIN Split(given, <<44>>) : \E u \in DOMAIN known : known[u] = Split(given, <<44>>)[q]
IsSet(mode, given, o) == mode # 0 /\ \E q \in DOMAIN Split(given, <<44>>) : Split(given, <<44>>)[q] = o
=============================================================================
