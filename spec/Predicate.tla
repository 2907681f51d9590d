------------------------------- MODULE Predicate -------------------------------
(* Predicates: alternatives of conjunctions of comparisons "side operator side",
   the sides being prefix expressions whose arguments are joined by ':' and in
   which variables stand as whole words.  Items that begin with @ are settings. *)
EXTENDS Prefix
Two == {<<61, 61>>, <<33, 61>>, <<60, 61>>, <<62, 61>>, <<37, 37>>}
One == {<<60>>, <<62>>}
RECURSIVE SplitAny(_, _)
SplitAny(s, cs) ==
  LET p == FirstAt(s, LAMBDA x : \E q \in DOMAIN cs : cs[q] = x) IN
  IF p = 0 THEN <<s>> ELSE <<Sub(s, 1, p - 1)>> \o SplitAny(Sub(s, p + 1, Len(s)), cs)
Pieces(s, cs) == NonEmpty(SplitAny(s, cs))
\* --- comparisons
OpLen(s, q) == IF q < Len(s) /\ Sub(s, q, q + 1) \in Two THEN 2 ELSE IF Sub(s, q, q) \in One THEN 1 ELSE 0
OpAt(s) == LET e == {q \in 1..Len(s) : OpLen(s, q) > 0} IN IF e = {} THEN 0 ELSE CHOOSE q \in e : \A u \in e : q <= u
Cmp(s) == LET q == OpAt(s)  n == OpLen(s, q) IN
          IF q = 0 THEN [ok |-> FALSE] ELSE
          LET a == Sub(s, 1, q - 1)  b == Sub(s, q + n, Len(s)) IN
          [ok |-> a # <<>> /\ b # <<>>, l |-> a, op |-> Sub(s, q, q + n - 1), r |-> b]
\* --- the whole: settings and alternatives
Setting(s) == s[1] = 64
Items(text, os) == Pieces(text, os)
Formula(text, os, as) == LET it == SelectSeq(Items(text, os), LAMBDA s : ~Setting(s)) IN
                         [q \in DOMAIN it |-> LET w == Pieces(it[q], as) IN [u \in DOMAIN w |-> Cmp(w[u])]]
Settings(text, os) == SelectSeq(Items(text, os), LAMBDA s : Setting(s))
WellFormed(f) == \A q \in DOMAIN f : \A u \in DOMAIN f[q] : f[q][u].ok
\* --- variables: env is a sequence of [n, v], v in thousandths
InWord(c) == IsDig(c) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
RECURSIVE TrimZeros(_)
TrimZeros(s) == IF s[Len(s)] = 48 THEN TrimZeros(Sub(s, 1, Len(s) - 1)) ELSE IF s[Len(s)] = 46 THEN Sub(s, 1, Len(s) - 1) ELSE s
ValueText(v) == TrimZeros(SixDecimals(v))
WordEnd(s) == LET p == FirstAt(s, LAMBDA c : ~InWord(c)) IN IF p = 0 THEN Len(s) ELSE p - 1
RECURSIVE Subst(_, _)
Subst(s, env) ==
  IF s = <<>> THEN <<>>
  ELSE IF ~InWord(s[1]) THEN <<s[1]>> \o Subst(Tail(s), env)
  ELSE LET n == WordEnd(s)  w == Sub(s, 1, n)  e == {q \in DOMAIN env : env[q].n = w} IN
       (IF e = {} THEN w ELSE ValueText(env[CHOOSE q \in e : \A u \in e : q <= u].v)) \o Subst(Sub(s, n + 1, Len(s)), env)
Side(s, env) == Pieces(Subst(s, env), <<58>>)
\* --- truth; a comparison is "t", "f" or "e" (one of its sides is no expression, or divisible by zero)
Less(x, y) == x.a * y.d < y.a * x.d
Divides(x, y) == (x.a * y.d) % (Abs(y.a) * x.d) = 0
Truth(op, x, y) ==
  CASE op = <<61, 61>> -> x = y [] op = <<33, 61>> -> x # y [] op = <<60>> -> Less(x, y) [] op = <<62>> -> Less(y, x)
    [] op = <<60, 61>> -> ~Less(y, x) [] op = <<62, 61>> -> ~Less(x, y) [] op = <<37, 37>> -> Divides(x, y)
CmpValue(ty, c, env) ==
  LET a == Side(c.l, env)  b == Side(c.r, env) IN
  IF ~Valid(ty, a) \/ ~Valid(ty, b) THEN "e"
  ELSE LET x == Value(ty, a)  y == Value(ty, b) IN
       IF c.op = <<37, 37>> /\ y.a = 0 THEN "e" ELSE IF Truth(c.op, x, y) THEN "t" ELSE "f"
\* the value of a conjunction (alternatives): what decides first, from the left
FirstOf(vs, d, e) == LET p == FirstAt(vs, LAMBDA v : v # d) IN IF p = 0 THEN e ELSE vs[p]
AndValue(vs) == FirstOf(vs, "t", "t")
OrValue(vs) == FirstOf(vs, "f", "f")
Table(ty, f, env) == [q \in DOMAIN f |-> [u \in DOMAIN f[q] |-> CmpValue(ty, f[q][u], env)]]
FormulaValue(tb) == OrValue([q \in DOMAIN tb |-> AndValue(tb[q])])
Erroneous(tb) == \E q \in DOMAIN tb : \E u \in DOMAIN tb[q] : tb[q][u] = "e"
=============================================================================
