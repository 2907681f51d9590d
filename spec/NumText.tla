------------------------------- MODULE NumText -------------------------------
(* What text (a sequence of character codes) is as a number.                      *)
EXTENDS Lists, Integers
IsDig(c) == c >= 48 /\ c <= 57
AllDig(s) == s # <<>> /\ \A q \in DOMAIN s : IsDig(s[q])
IsBlank(c) == c \in {32, 9, 10, 13, 11, 12}
Has(s, c) == \E q \in DOMAIN s : s[q] = c
FirstAt(s, P(_)) == LET e == {q \in DOMAIN s : P(s[q])} IN IF e = {} THEN 0 ELSE CHOOSE q \in e : \A u \in e : q <= u
Sub(s, a, b) == SubSeq(s, a, b)
Unsigned(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
Negative(s) == s # <<>> /\ s[1] = 45
RECURSIVE NatOf(_, _)
NatOf(s, acc) == IF s = <<>> THEN acc ELSE NatOf(Tail(s), 10 * acc + Head(s) - 48)
\* --- integers
IsIntText(s) == AllDig(Unsigned(s))
IntOf(s) == LET v == NatOf(Unsigned(s), 0) IN IF Negative(s) THEN -v ELSE v
\* --- reals: sign digits [. digits] [e sign digits]
ExpAt(s) == FirstAt(s, LAMBDA c : c \in {69, 101})
Mant(s) == IF ExpAt(s) = 0 THEN s ELSE Sub(s, 1, ExpAt(s) - 1)
ExpText(s) == IF ExpAt(s) = 0 THEN <<48>> ELSE Sub(s, ExpAt(s) + 1, Len(s))
DotAt(m) == FirstAt(m, LAMBDA c : c = 46)
IsMant(m) == LET d == DotAt(m)  a == IF d = 0 THEN m ELSE Sub(m, 1, d - 1) \o Sub(m, d + 1, Len(m)) IN AllDig(a)
IsRealText(s) == LET u == Unsigned(s) IN IsMant(Mant(u)) /\ IsIntText(ExpText(u))
RECURSIVE Pow10(_)
Pow10(k) == IF k <= 0 THEN 1 ELSE 10 * Pow10(k - 1)
\* in thousandths; only for numbers that are a small whole number of them
Milli(s) ==
  LET u == Unsigned(s)  m == Mant(u)  d == DotAt(m)
      digits == NatOf(IF d = 0 THEN m ELSE Sub(m, 1, d - 1) \o Sub(m, d + 1, Len(m)), 0)
      scale == IntOf(ExpText(u)) - (IF d = 0 THEN 0 ELSE Len(m) - d) + 3
      v == IF scale >= 0 THEN digits * Pow10(scale) ELSE digits \div Pow10(-scale) IN
  IF Negative(s) THEN -v ELSE v
RECURSIVE DigitsOf(_)
DigitsOf(n) == (IF n < 10 THEN <<>> ELSE DigitsOf(n \div 10)) \o <<48 + (n % 10)>>
\* std::to_string of a number of thousandths
SixDecimals(v) ==
  LET a == Abs(v)  f == a % 1000 IN
  (IF v < 0 THEN <<45>> ELSE <<>>) \o DigitsOf(a \div 1000) \o <<46, 48 + (f \div 100), 48 + ((f \div 10) % 10), 48 + (f % 10), 48, 48, 48>>
\* The number with all its digits (up to fifteen), as printf's %.15g writes it.
Zeros(n) == [q \in 1 .. n |-> 48]
RECURSIVE CutZeros(_)
CutZeros(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN CutZeros(Sub(s, 1, Len(s) - 1)) ELSE s
GText(s) ==
  LET u == Unsigned(s)  m == Mant(u)  d == DotAt(m)
      ds == IF d = 0 THEN m ELSE Sub(m, 1, d - 1) \o Sub(m, d + 1, Len(m))
      k == FirstAt(ds, LAMBDA c : c # 48)
      sig == CutZeros(Sub(ds, k, Len(ds)))
      x == (IF d = 0 THEN Len(m) ELSE d - 1) - k + IntOf(ExpText(u))
      two(n) == IF n < 10 THEN <<48>> \o DigitsOf(n) ELSE DigitsOf(n) IN
  (IF Negative(s) THEN <<45>> ELSE <<>>) \o
  (IF k = 0 THEN <<48>>
   ELSE IF x < -4 \/ x >= 15
   THEN Sub(sig, 1, 1) \o (IF Len(sig) > 1 THEN <<46>> \o Tail(sig) ELSE <<>>) \o <<101, IF x < 0 THEN 45 ELSE 43>> \o two(Abs(x))
   ELSE IF x < 0 THEN <<48, 46>> \o Zeros(-x - 1) \o sig
   ELSE IF Len(sig) <= x + 1 THEN sig \o Zeros(x + 1 - Len(sig))
   ELSE Sub(sig, 1, x + 1) \o <<46>> \o Sub(sig, x + 2, Len(sig)))
\* --- pieces of text
RECURSIVE SplitBy(_, _)
\* at every c, empty pieces included
SplitBy(s, c) ==
  LET p == FirstAt(s, LAMBDA x : x = c) IN
  IF p = 0 THEN <<s>> ELSE <<Sub(s, 1, p - 1)>> \o SplitBy(Sub(s, p + 1, Len(s)), c)
NonEmpty(ss) == SelectSeq(ss, LAMBDA x : x # <<>>)
RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # <<>> /\ IsBlank(s[1]) THEN TrimLeft(Tail(s)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # <<>> /\ IsBlank(s[Len(s)]) THEN TrimRight(Sub(s, 1, Len(s) - 1)) ELSE s
NoBlanks(s) == SelectSeq(s, LAMBDA c : ~IsBlank(c))
=============================================================================
