------------------------------ MODULE TraceStrings ------------------------------
EXTENDS Strings, TraceBase
Reset(r) == [ok |-> FALSE]
B(x) == IF x THEN 1 ELSE 0
Judge(r, s) ==
  CASE r.e = "split" -> When(r.x = 0 /\ r.got = r.had \o Split(r.s, r.ds), s, Split(r.s, r.ds))
    [] r.e = "subst" ->
         LET b == HasText(r.s, r.label)  y == [any |-> b, all |-> Subst(r.s, r.label, r.to), one |-> SubstOne(r.s, r.label, r.to)]  n == IF b THEN 1 ELSE 0 IN
         When(r.x = 0 /\ r.any = n /\ r.some = n /\ r.all = y.all /\ r.one = y.one, s, y)
    [] r.e = "replace" -> When(r.x = 0 /\ r.got = Replace(r.s, r.from, r.to), s, Replace(r.s, r.from, r.to))
    [] r.e = "base" -> When(r.x = 0 /\ r.name = BaseName(r.s) /\ r.stem = Stem(r.s), s, <<BaseName(r.s), Stem(r.s)>>)
    [] r.e = "isnum" -> When(r.x = 0 /\ r.int = B(IsPlainInt(r.s)) /\ r.real = B(IsRealText(r.s)), s, <<IsPlainInt(r.s), IsRealText(r.s)>>)
    [] r.e = "atoi" -> IF ~AtoiOk(r.s) THEN When(r.x = 1, s, "an exception") ELSE When(r.x = 0 /\ r.v = Atoi(r.s), s, Atoi(r.s))
    [] r.e = "atof" -> IF ~IsRealText(r.s) THEN When(r.x = 1, s, "an exception") ELSE When(r.x = 0 /\ r.v = Milli(r.s), s, Milli(r.s))
    [] r.e = "bits" -> When(r.x = 0 /\ r.v = Bits(r.n), s, Bits(r.n))
    [] r.e = "div" -> IF r.b = 0 THEN When(r.x = 1, s, "an exception")
                      ELSE IF r.a % r.b # 0 THEN When(r.x = 1, s, "an exception") ELSE When(r.x = 0 /\ r.v = r.a \div r.b, s, r.a \div r.b)
    [] r.e = "opts" -> IF ~OptionsOk(r.mode, r.known, r.given) THEN When(r.x = 1, [ok |-> FALSE], "an exception")
                       ELSE When(r.x = 0, [ok |-> TRUE, mode |-> r.mode, given |-> r.given], "no exception")
    [] r.e = "isset" -> IF ~s.ok THEN When(r.x = 1, s, "no options") ELSE When(r.x = 0 /\ r.v = B(IsSet(s.mode, s.given, r.o)), s, IsSet(s.mode, s.given, r.o))
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
