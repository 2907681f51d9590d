-------------------------------- MODULE Prefix --------------------------------
(* Expressions in prefix notation, level by level: the first token is the root,
   and the arguments of the operators of one level stand, in order, in the next.
   A number is (a + b i) / d, in lowest terms, d > 0.                            *)
EXTENDS NumText

Plus2 == <<43>>  Minus2 == <<45>>  Times2 == <<42>>  Div2 == <<47>>  Mod2 == <<37>>
SinT == <<115, 105, 110>>  CosT == <<99, 111, 115>>  LogT == <<108, 111, 103>>  ExpT == <<101, 120, 112>>  CondT == <<63>>
Arity(t) == IF t \in {Plus2, Minus2, Times2, Div2, Mod2} THEN 2 ELSE IF t \in {SinT, CosT, LogT, ExpT} THEN 1 ELSE IF t = CondT THEN 3 ELSE 0
RECURSIVE ArSum(_, _)
ArSum(ts, n) == IF n = 0 THEN 0 ELSE Arity(ts[n]) + ArSum(ts, n - 1)
\* the expression ends with the first token after which no argument is missing (0: it never does)
Length(ts) == LET e == {n \in DOMAIN ts : 1 + ArSum(ts, n) = n} IN IF e = {} THEN 0 ELSE CHOOSE n \in e : \A u \in e : n <= u
Children(ts, n) == [q \in 1..Arity(ts[n]) |-> 1 + ArSum(ts, n - 1) + q]
\* --- numbers
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Num(a, b, d) == LET s == IF d < 0 THEN -1 ELSE 1  g == Gcd(Gcd(Abs(a), Abs(b)), Abs(d)) IN
                [a |-> (s * a) \div g, b |-> (s * b) \div g, d |-> (s * d) \div g]
IntN(n) == [a |-> n, b |-> 0, d |-> 1]
Add(x, y) == Num(x.a * y.d + y.a * x.d, x.b * y.d + y.b * x.d, x.d * y.d)
Neg(x) == [x EXCEPT !.a = -x.a, !.b = -x.b]
Mul(x, y) == Num(x.a * y.a - x.b * y.b, x.a * y.b + x.b * y.a, x.d * y.d)
Small(y) == IF y.b = 0 THEN 1000 * Abs(y.a) < y.d ELSE FALSE
Quot(x, y) == Num((x.a * y.a + x.b * y.b) * y.d, (x.b * y.a - x.a * y.b) * y.d, x.d * (y.a * y.a + y.b * y.b))
TruncQ(n, m) == LET q == Abs(n) \div Abs(m) IN IF (n < 0) = (m < 0) THEN q ELSE -q
Whole(x) == Abs(x.a) \div x.d
NonZero(x) == x.b # 0 \/ Whole(x) >= 1
\* --- literals
Whole3(s) == LET m == Milli(s) IN Num(m, 0, 1000)
UnsignedReal(s) == IsRealText(s) /\ ~(s[1] \in {43, 45})
LitSign(s) == IF s # <<>> /\ s[1] = 43 THEN (IF Len(s) > 1 /\ s[2] = 45 THEN [n |-> TRUE, r |-> Sub(s, 3, Len(s))] ELSE [n |-> FALSE, r |-> Tail(s)])
              ELSE IF s # <<>> /\ s[1] = 45 THEN [n |-> TRUE, r |-> Tail(s)] ELSE [n |-> FALSE, r |-> s]
Signed(s) == IF LitSign(s).n THEN Neg(Whole3(LitSign(s).r)) ELSE Whole3(LitSign(s).r)
ImagPart(s) == Sub(s, 1, Len(s) - 1)
RealPiece(s) == LET r == LitSign(s).r IN r # <<>> /\ UnsignedReal(r)
ImagPiece(s) == s # <<>> /\ s[Len(s)] = 105 /\ (LET r == LitSign(ImagPart(s)).r IN r = <<>> \/ UnsignedReal(r))
ImagVal(s) == LET r == LitSign(ImagPart(s)).r  v == IF r = <<>> THEN IntN(1) ELSE Whole3(r)  w == IF LitSign(ImagPart(s)).n THEN Neg(v) ELSE v IN
              [a |-> 0, b |-> w.a, d |-> w.d]
Cuts(s) == {q \in 2..Len(s) : s[q] \in {43, 45} /\ RealPiece(Sub(s, 1, q - 1)) /\ ImagPiece(Sub(s, q, Len(s)))}
IsLit(ty, s) == IF ty = "z" THEN RealPiece(s) \/ ImagPiece(s) \/ Cuts(s) # {} ELSE IsRealText(s)
Lit(ty, s) == IF ty # "z" THEN Whole3(s)
              ELSE IF RealPiece(s) THEN Signed(s) ELSE IF ImagPiece(s) THEN ImagVal(s)
              ELSE LET q == CHOOSE q \in Cuts(s) : TRUE IN Add(Signed(Sub(s, 1, q - 1)), ImagVal(Sub(s, q, Len(s))))
\* --- operators
At0(v, y) == IF v = IntN(0) THEN y ELSE Assert(FALSE, <<"argument outside the tables", v>>)
Apply(ty, t, v) ==
  CASE t = Plus2 -> Add(v[1], v[2])
    [] t = Minus2 -> Add(v[1], Neg(v[2]))
    [] t = Times2 -> Mul(v[1], v[2])
    [] t = Div2 -> IF Small(v[2]) THEN v[1] ELSE IF ty \in {"i", "u"} THEN IntN(TruncQ(v[1].a, v[2].a)) ELSE Quot(v[1], v[2])
    [] t = Mod2 -> IntN(IF Whole(v[2]) = 0 THEN Whole(v[1]) ELSE Whole(v[1]) % Whole(v[2]))
    [] t = CondT -> IF NonZero(v[1]) THEN v[2] ELSE v[3]
    [] t = SinT -> At0(v[1], IntN(0))
    [] t \in {CosT, ExpT} -> At0(v[1], IntN(1))
    [] t = LogT -> At0(Add(v[1], IntN(-1)), IntN(0))
RECURSIVE ValueAt(_, _, _)
ValueAt(ty, ts, n) ==
  IF Arity(ts[n]) = 0 THEN Lit(ty, ts[n])
  ELSE LET c == Children(ts, n) IN Apply(ty, ts[n], [q \in DOMAIN c |-> ValueAt(ty, ts, c[q])])
Valid(ty, ts) == Length(ts) > 0 /\ \A n \in 1..Length(ts) : Arity(ts[n]) > 0 \/ IsLit(ty, ts[n])
Value(ty, ts) == ValueAt(ty, ts, 1)
=============================================================================
