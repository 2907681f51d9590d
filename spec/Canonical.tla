------------------------------- MODULE Canonical -------------------------------
(* Sums of products: terms joined by +, factors by *, a factor being a number, i or
   a number followed by i, a prefix expression in parentheses, or an item.        *)
EXTENDS Prefix
\* --- items: square matrices [n, m] of size n (n = 0: nothing there), entries row by row
Entry(x, a, b) == x.m[(a - 1) * x.n + b]
RECURSIVE Dot(_, _, _, _, _)
Dot(x, y, a, b, k) == IF k = 0 THEN IntN(0) ELSE Add(Mul(Entry(x, a, k), Entry(y, k, b)), Dot(x, y, a, b, k - 1))
MatMul(x, y) == [x EXCEPT !.m = [q \in DOMAIN x.m |-> Dot(x, y, 1 + ((q - 1) \div x.n), 1 + ((q - 1) % x.n), x.n)]]
MatAdd(x, y) == [x EXCEPT !.m = [q \in DOMAIN x.m |-> Add(x.m[q], y.m[q])]]
Scale(x, f) == [x EXCEPT !.m = [q \in DOMAIN x.m |-> Mul(x.m[q], f)]]
Nothing == [n |-> 0, m |-> <<>>]
\* --- parentheses and minus signs
OpenBefore(s, q) == Cardinality({u \in 1..(q - 1) : s[u] = 40}) - Cardinality({u \in 1..(q - 1) : s[u] = 41})
Balanced(s) == (\A q \in 1..(Len(s) + 1) : OpenBefore(s, q) \in {0, 1}) /\ OpenBefore(s, Len(s) + 1) = 0
MinusOk(s) == \A q \in 2..Len(s) : s[q] = 45 => s[q - 1] \in {40, 43}
\* --- pieces outside parentheses
RECURSIVE SplitTop(_, _, _, _)
SplitTop(s, c, open, cur) ==
  IF s = <<>> THEN <<cur>>
  ELSE IF s[1] = c /\ ~open THEN <<cur>> \o SplitTop(Tail(s), c, open, <<>>)
  ELSE SplitTop(Tail(s), c, IF s[1] = 40 THEN TRUE ELSE IF s[1] = 41 THEN FALSE ELSE open, Append(cur, s[1]))
Top(s, c) == NonEmpty(SplitTop(s, c, FALSE, <<>>))
Terms(s) == LET t == Top(s, 43) IN [q \in DOMAIN t |-> Top(t[q], 42)]
\* --- factors
Paren(f) == Len(f) >= 2 /\ f[1] = 40 /\ f[Len(f)] = 41 /\ Cardinality({q \in DOMAIN f : f[q] = 40}) = 1
NumChars(f) == f # <<>> /\ \A q \in DOMAIN f : IsDig(f[q]) \/ f[q] \in {46, 45, 43}
Imag(f) == f = <<105>> \/ (Len(f) >= 2 /\ f[Len(f)] = 105 /\ NumChars(Sub(f, 1, Len(f) - 1)))
RECURSIVE SubstPi(_)
\* pi is 3 here: texts in which its value matters are judged apart
SubstPi(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = 112 /\ s[2] = 105 THEN <<51>> \o SubstPi(Sub(s, 3, Len(s))) ELSE <<s[1]>> \o SubstPi(Tail(s))
Inner(f) == NonEmpty(SplitBy(SubstPi(Sub(f, 2, Len(f) - 1)), 58))
Item(f, env) == LET e == {q \in DOMAIN env : env[q].n = f} IN IF e = {} THEN Nothing ELSE env[CHOOSE q \in e : TRUE].v
\* [k |-> "s", f] scalar, [k |-> "i", v] item, [k |-> "e"] error
Factor(ty, f, env) ==
  IF Paren(f) THEN (IF Valid(ty, Inner(f)) THEN [k |-> "s", f |-> Value(ty, Inner(f))] ELSE [k |-> "e"])
  ELSE IF NumChars(f) THEN (IF IsRealText(f) THEN [k |-> "s", f |-> Whole3(f)] ELSE [k |-> "e"])
  ELSE IF Imag(f) THEN (IF ty = "z" /\ (f = <<105>> \/ IsRealText(Sub(f, 1, Len(f) - 1))) THEN [k |-> "s", f |-> Mul(IF f = <<105>> THEN IntN(1) ELSE Whole3(Sub(f, 1, Len(f) - 1)), [a |-> 0, b |-> 1, d |-> 1])] ELSE [k |-> "e"])
  ELSE IF Item(f, env).n = 0 THEN [k |-> "e"] ELSE [k |-> "i", v |-> Item(f, env)]
\* every parenthesised text is an expression, wherever it stands
RECURSIVE Parens(_)
Parens(s) == LET o == FirstAt(s, LAMBDA c : c = 40)  e == FirstAt(s, LAMBDA c : c = 41) IN
             IF o = 0 THEN <<>> ELSE <<Sub(s, o, e)>> \o Parens(Sub(s, e + 1, Len(s)))
WellFormed(ty, s) == Balanced(s) /\ MinusOk(s) /\ (LET p == Parens(s) IN \A q \in DOMAIN p : Valid(ty, Inner(p[q])))
RECURSIVE ScalarOf(_)
ScalarOf(fs) == IF fs = <<>> THEN IntN(1) ELSE IF fs[1].k = "s" THEN Mul(fs[1].f, ScalarOf(Tail(fs))) ELSE ScalarOf(Tail(fs))
RECURSIVE Product(_, _)
Product(x, vs) == IF vs = <<>> THEN x ELSE Product(MatMul(x, vs[1]), Tail(vs))
\* the value of a term: scalars times items in the order written; Nothing without items
TermValue(ty, t, env) ==
  LET fs == [q \in DOMAIN t |-> Factor(ty, t[q], env)]
      it == SelectSeq(fs, LAMBDA f : f.k = "i")
      vs == [q \in DOMAIN it |-> it[q].v] IN
  IF \E q \in DOMAIN fs : fs[q].k = "e" THEN [ok |-> FALSE]
  ELSE IF vs = <<>> THEN [ok |-> TRUE, v |-> Nothing]
  ELSE IF \E q \in DOMAIN vs : vs[q].n # vs[1].n THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, v |-> Scale(Product(vs[1], Tail(vs)), ScalarOf(fs))]
RECURSIVE SumOf(_)
SumOf(vs) == IF Len(vs) = 1 THEN vs[1] ELSE MatAdd(vs[1], SumOf(Tail(vs)))
\* old: what the result variable held; it tells the kind, and stays if no term has items
Evaluate(ty, s, env, old) ==
  IF ~WellFormed(ty, s) THEN [ok |-> FALSE]
  ELSE LET ts == Terms(s)  tv == [q \in DOMAIN ts |-> TermValue(ty, ts[q], env)] IN
       IF \E q \in DOMAIN tv : ~tv[q].ok THEN [ok |-> FALSE]
       ELSE LET some == SelectSeq(tv, LAMBDA x : x.v.n > 0)  vs == [q \in DOMAIN some |-> some[q].v] IN
            IF \E q \in DOMAIN vs : vs[q].n # old.n THEN [ok |-> FALSE]
            ELSE [ok |-> TRUE, v |-> IF vs = <<>> THEN old ELSE SumOf(vs)]
=============================================================================
