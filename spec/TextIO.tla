------------------------------- MODULE TextIO -------------------------------
(* Values printed to a text stream and read back.  A stream is a sequence of
   tokens (a token is a sequence of character codes; blanks between tokens do not
   matter).  Numbers are kept in quarters, so that every number used here has an
   exact and short decimal text.  A value is
     [k |-> "v", a |-> entries]                 vectors and stacks (from the top)
     [k |-> "m", r |-> rows, c |-> columns, a |-> entries row by row]
   and an entry is <<x>>, <<re, im>> or the codes of a word, by the kind of entry
   t: "i" integer, "d" real, "z" complex, "s" word, "p" pair of integers,
   "v" a vector of integers.                                                     *)
EXTENDS Lists, Integers
LP == 40  COMMA == 44  RP == 41  MINUS == 45  DOT == 46
RECURSIVE Digits(_)
Digits(n) == (IF n < 10 THEN <<>> ELSE Digits(n \div 10)) \o <<48 + (n % 10)>>
IntText(n) == (IF n < 0 THEN <<MINUS>> ELSE <<>>) \o Digits(Abs(n))
Frac(n) == <<<<>>, <<DOT, 50, 53>>, <<DOT, 53>>, <<DOT, 55, 53>>>>[n + 1]
\* the text of q quarters
NumText(q) == (IF q < 0 THEN <<MINUS>> ELSE <<>>) \o Digits(Abs(q) \div 4) \o Frac(Abs(q) % 4)
\* the one token of an entry of kind i, d, z or s
EntryText(t, e) ==
  CASE t = "i" -> IntText(e[1])
    [] t = "d" -> NumText(e[1])
    [] t = "z" -> <<LP>> \o NumText(e[1]) \o <<COMMA>> \o NumText(e[2]) \o <<RP>>
    [] t = "s" -> e
Flatten(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
\* the tokens of an entry: pairs and vectors are more than one
EntryTokens(t, e) ==
  CASE t = "p" -> <<IntText(e[1]), IntText(e[2])>>
    [] t = "v" -> <<IntText(Len(e))>> \o [q \in DOMAIN e |-> IntText(e[q])]
    [] OTHER -> <<EntryText(t, e)>>
Tokens(t, x) ==
  (IF x.k = "v" THEN <<IntText(Len(x.a))>> ELSE <<IntText(x.r), IntText(x.c)>>)
  \o Flatten([q \in DOMAIN x.a |-> EntryTokens(t, x.a[q])])
(* --- reading ------------------------------------------------------------------ *)
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE Nat10(_, _)
Nat10(s, acc) == IF s = <<>> THEN acc ELSE Nat10(Tail(s), 10 * acc + Head(s) - 48)
ToInt(s) == IF s # <<>> /\ s[1] = MINUS THEN -Nat10(Tail(s), 0) ELSE Nat10(s, 0)
At0(s, c) == LET p == {q \in DOMAIN s : s[q] = c} IN IF p = {} THEN 0 ELSE CHOOSE q \in p : \A u \in p : q <= u
UQuarters(s) ==
  LET d == At0(s, DOT) IN
  IF d = 0 THEN 4 * Nat10(s, 0)
  ELSE 4 * Nat10(SubSeq(s, 1, d - 1), 0)
       + (CHOOSE f \in 1 .. 3 : Frac(f) = SubSeq(s, d, Len(s)))
ToQuarters(s) == IF s # <<>> /\ s[1] = MINUS THEN -UQuarters(Tail(s)) ELSE UQuarters(s)
FromText(t, s) ==
  CASE t = "i" -> <<ToInt(s)>>
    [] t = "d" -> <<ToQuarters(s)>>
    [] t = "z" -> LET c == At0(s, COMMA) IN
                  <<ToQuarters(SubSeq(s, 2, c - 1)), ToQuarters(SubSeq(s, c + 1, Len(s) - 1))>>
    [] t = "s" -> s
\* whether a token is the text of an entry of kind t
AllDigits(s) == s # <<>> /\ \A q \in DOMAIN s : IsDigit(s[q])
Unsigned(s) == IF s # <<>> /\ s[1] = MINUS THEN Tail(s) ELSE s
IsInt(s) == AllDigits(Unsigned(s)) /\ Len(s) < 9
IsNum(s) ==
  LET u == Unsigned(s)  d == At0(u, DOT) IN
  Len(s) < 9 /\ IF d = 0 THEN AllDigits(u)
                ELSE AllDigits(SubSeq(u, 1, d - 1)) /\ \E f \in 1 .. 3 : Frac(f) = SubSeq(u, d, Len(u))
Fits(t, s) ==
  CASE t = "i" -> IsInt(s)
    [] t = "d" -> IsNum(s)
    [] t = "z" -> LET c == At0(s, COMMA) IN
                  /\ Len(s) > 4 /\ s[1] = LP /\ s[Len(s)] = RP /\ c > 0
                  /\ IsNum(SubSeq(s, 2, c - 1)) /\ IsNum(SubSeq(s, c + 1, Len(s) - 1))
    [] OTHER -> TRUE
RECURSIVE FitsN(_, _, _)
FitsN(t, n, ts) ==
  IF n = 0 THEN TRUE
  ELSE CASE t = "p" -> Len(ts) >= 2 /\ IsInt(ts[1]) /\ IsInt(ts[2]) /\ FitsN(t, n - 1, SubSeq(ts, 3, Len(ts)))
         [] t = "v" -> /\ ts # <<>> /\ IsInt(ts[1]) /\ ts[1][1] # MINUS /\ Len(ts) > ToInt(ts[1])
                       /\ \A q \in 1 .. ToInt(ts[1]) : IsInt(ts[q + 1])
                       /\ FitsN(t, n - 1, SubSeq(ts, ToInt(ts[1]) + 2, Len(ts)))
         [] OTHER -> ts # <<>> /\ Fits(t, ts[1]) /\ FitsN(t, n - 1, Tail(ts))
\* whether a stream begins with a value of shape k
FitsValue(k, t, ts) ==
  LET ok(q) == Len(ts) >= q /\ AllDigits(ts[q]) /\ Len(ts[q]) < 5 IN
  IF k = "v" THEN ok(1) /\ FitsN(t, ToInt(ts[1]), Tail(ts))
  ELSE ok(1) /\ ok(2) /\ FitsN(t, ToInt(ts[1]) * ToInt(ts[2]), SubSeq(ts, 3, Len(ts)))
\* [v, rest]: one entry, and n entries, from the front of the tokens
TakeEntry(t, ts) ==
  CASE t = "p" -> [v |-> <<ToInt(ts[1]), ToInt(ts[2])>>, rest |-> SubSeq(ts, 3, Len(ts))]
    [] t = "v" -> LET n == ToInt(ts[1]) IN
                  [v |-> [q \in 1 .. n |-> ToInt(ts[q + 1])], rest |-> SubSeq(ts, n + 2, Len(ts))]
    [] OTHER -> [v |-> FromText(t, ts[1]), rest |-> Tail(ts)]
RECURSIVE TakeN(_, _, _)
TakeN(t, n, ts) ==
  IF n = 0 THEN [v |-> <<>>, rest |-> ts]
  ELSE LET e == TakeEntry(t, ts)  f == TakeN(t, n - 1, e.rest) IN [v |-> <<e.v>> \o f.v, rest |-> f.rest]
\* [x, rest]: a value of shape k from the front of the stream
Parse(k, t, ts) ==
  IF k = "v" THEN LET n == TakeN(t, ToInt(ts[1]), Tail(ts)) IN [x |-> [k |-> "v", a |-> n.v], rest |-> n.rest]
  ELSE LET r == ToInt(ts[1])  c == ToInt(ts[2])  n == TakeN(t, r * c, SubSeq(ts, 3, Len(ts))) IN
       [x |-> [k |-> "m", r |-> r, c |-> c, a |-> n.v], rest |-> n.rest]
(* --- other printed forms of a matrix (tokens again) ------------------------------ *)
\* entries whose size is below eps (a number of quarters) are printed as 0; the size of
\* a complex number is its squared modulus
Chop(t, eps, e) ==
  LET small == IF t = "z" THEN e[1] * e[1] + e[2] * e[2] < 4 * eps ELSE Abs(e[1]) < eps IN
  IF small THEN [q \in DOMAIN e |-> 0] ELSE e
Row(x, i) == SubSeq(x.a, (i - 1) * x.c + 1, i * x.c)
Null(e) == \A q \in DOMAIN e : e[q] = 0
Neg(e) == [q \in DOMAIN e |-> -e[q]]
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
\* "m:={{a,b},{c,d}}" without blanks
Mathematica(t, x) ==
  <<109, 58, 61, 123>> \o
  Join([i \in 1 .. x.r |-> <<123>> \o Join([j \in 1 .. x.c |-> EntryText(t, Row(x, i)[j])], <<COMMA>>) \o <<125>>], <<COMMA>>)
  \o <<125>>
\* printNonZero: a line for each row that has any; ; stands for the end of a line
EOL == <<<<59>>>>
NonZeroTokens(t, x) ==
  LET line(a) == Flatten([q \in DOMAIN a |-> IF Null(a[q]) THEN <<>> ELSE <<EntryText(t, a[q])>>]) IN
  <<<<35, 115, 105, 122, 101, 61>> \o IntText(x.r) \o <<120>> \o IntText(x.c)>> \o EOL
  \o Flatten([i \in 1 .. x.r |-> LET w == line(Row(x, i)) IN IF w = <<>> THEN w ELSE w \o EOL])
  \o <<<<35, 100, 105, 97, 103, 111, 110, 97, 108>>, <<110, 111, 110, 45, 122, 101, 114, 111>>>> \o EOL
  \o line([i \in 1 .. x.r |-> Row(x, i)[i]]) \o EOL
\* symbolicPrint: a letter for each value up to sign, in order of appearance
PosOf(vs, e) == IF \E q \in DOMAIN vs : vs[q] = e THEN CHOOSE q \in DOMAIN vs : vs[q] = e ELSE 0
SymStep(st, e) ==
  IF Null(e) THEN [st EXCEPT !.w = Append(@, <<48>>)]
  ELSE LET p == PosOf(st.vs, e)  n == PosOf(st.vs, Neg(e)) IN
       IF p # 0 THEN [st EXCEPT !.w = Append(@, <<64 + p>>)]
       ELSE IF n # 0 THEN [st EXCEPT !.w = Append(@, <<MINUS, 64 + n>>)]
       ELSE [st EXCEPT !.vs = Append(@, e), !.w = Append(@, <<65 + Len(st.vs)>>)]
Symbols(x) == FoldLeft(SymStep, [vs |-> <<>>, w |-> <<>>], x.a)
SymTokens(t, x) ==
  LET s == Symbols(x) IN
  <<IntText(x.r), IntText(x.c)>> \o s.w \o <<[q \in 1 .. 27 |-> MINUS]>>
  \o [q \in DOMAIN s.vs |-> <<64 + q, 61>> \o EntryText(t, s.vs[q])]
=============================================================================
