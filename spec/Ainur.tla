-------------------------------- MODULE Ainur --------------------------------
(* Input programs.  A program is a sequence of statements
     [k |-> "decl", ty, name]          a declaration without value
     [k |-> "init", ty, name, v]       with a value
     [k |-> "set", name, v]            an assignment
     [k |-> "bad"]                     text that is no statement
   and running it gives a list of variables [name, bang, v] in the order of their
   declarations (bang: it must be used; v = NoVal: it has no value), in which every
   reference \name is then replaced by the text of that name.                     *)
EXTENDS NumText
NoVal == <<0>>
BACKSLASH == 92  QUOTE == 34  BANG == 33  LPAR == 40  RPAR == 41  COMMA == 44  LBR == 91  RBR == 93
\* AinurFromFile
Native == <<65, 105, 110, 117, 114, 70, 114, 111, 109, 70, 105, 108, 101>>
Where(vars, name) == FirstAt([q \in DOMAIN vars |-> vars[q].name], LAMBDA x : x = name)
Known(vars, name) == \E q \in DOMAIN vars : vars[q].name = name
\* --- declarations and assignments ------------------------------------------------
Bang(ty) == Len(ty) > 1 /\ ty[Len(ty)] = BANG
Step(st, s) ==
  IF ~st.ok \/ s.k = "bad" THEN [st EXCEPT !.ok = FALSE]
  ELSE IF s.k = "set" THEN
    IF ~Known(st.vars, s.name) THEN [st EXCEPT !.ok = FALSE]
    ELSE [st EXCEPT !.vars = [q \in DOMAIN @ |-> IF @[q].name = s.name THEN [@[q] EXCEPT !.v = TrimLeft(TrimRight(s.v))] ELSE @[q]]]
  ELSE IF Known(st.vars, s.name) THEN [st EXCEPT !.ok = FALSE]
  ELSE [st EXCEPT !.vars = Append(@, [name |-> s.name, bang |-> Bang(s.ty), v |-> IF s.k = "init" THEN TrimLeft(TrimRight(s.v)) ELSE NoVal])]
RunStmts(ss) == FoldLeft(Step, [ok |-> TRUE, vars |-> <<>>], ss)
\* --- macros ------------------------------------------------------------------------
NameChar(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ IsDig(c) \/ c = 95
RECURSIVE NameLen(_)
NameLen(s) == IF s = <<>> \/ ~NameChar(s[1]) THEN 0 ELSE 1 + NameLen(Tail(s))
Unquote(s) ==
  LET a == IF s # <<>> /\ s[1] = QUOTE THEN Tail(s) ELSE s IN
  IF a # <<>> /\ a[Len(a)] = QUOTE THEN Sub(a, 1, Len(a) - 1) ELSE a
Fail == [ok |-> FALSE, t |-> <<>>]
RECURSIVE ExpandText(_, _, _), ExpandVar(_, _, _)
\* busy: the names whose expansion is under way
ExpandText(vars, t, busy) ==
  LET p == FirstAt(t, LAMBDA c : c = BACKSLASH) IN
  IF p = 0 THEN [ok |-> TRUE, t |-> t]
  ELSE LET n == NameLen(Sub(t, p + 1, Len(t)))  name == Sub(t, p + 1, p + n)
           m == IF Known(vars, name) /\ name \notin busy THEN ExpandVar(vars, name, busy \cup {name}) ELSE Fail
           r == IF m.ok THEN ExpandText(vars, Sub(t, p + n + 1, Len(t)), busy) ELSE Fail IN
       IF ~m.ok \/ ~r.ok THEN Fail ELSE [ok |-> TRUE, t |-> Sub(t, 1, p - 1) \o Unquote(m.t) \o r.t]
\* the text of a variable; a reference to AinurFromFile makes it a function, whose
\* text is what follows
ExpandVar(vars, name, busy) ==
  LET v == vars[Where(vars, name)].v
      e == ExpandText(vars, v, busy) IN
  IF ~Has(v, BACKSLASH) \/ ~e.ok THEN e
  ELSE LET u == Unquote(e.t) IN
       IF u = <<>> \/ u[1] # BANG THEN [ok |-> TRUE, t |-> u]
       ELSE IF Len(u) > Len(Native) /\ Sub(u, 2, Len(Native) + 1) = Native
            THEN [ok |-> TRUE, t |-> Sub(u, Len(Native) + 2, Len(u))] ELSE Fail
WithNative(vars) == Append(vars, [name |-> Native, bang |-> FALSE, v |-> <<BANG>> \o Native])
IsFun(vars, q) == LET u == ExpandText(vars, vars[q].v, {vars[q].name}) IN
                  Has(vars[q].v, BACKSLASH) /\ u.ok /\ Unquote(u.t) # <<>> /\ Unquote(u.t)[1] = BANG
\* tables: file name -> the lines of the file
FunOk(call, tables) ==
  LET inner == Sub(call, 2, Len(call) - 1)  a == NonEmpty(SplitBy(inner, COMMA)) IN
  /\ Len(call) > 2 /\ call[1] = LPAR /\ call[Len(call)] = RPAR /\ Len(a) \in 1 .. 4
  /\ Unquote(a[1]) \in DOMAIN tables
  /\ Len(a) > 1 => a[2] \in {<<115, 112, 97, 99, 101>>, <<99, 111, 109, 109, 97>>}
  /\ \A q \in 3 .. Len(a) : IsIntText(a[q])
FunTable(call, tables) ==
  LET inner == Sub(call, 2, Len(call) - 1)  a == NonEmpty(SplitBy(inner, COMMA))
      sep == IF Len(a) > 1 /\ a[2][1] = 99 THEN COMMA ELSE 32
      cx == IF Len(a) > 2 THEN IntOf(a[3]) ELSE 0
      cy == IF Len(a) > 3 THEN IntOf(a[4]) ELSE 1
      rows == Map(Sel(tables[Unquote(a[1])], LAMBDA w : NoBlanks(w) # <<>>), LAMBDA w : NonEmpty(SplitBy(w, sep))) IN
  [ok |-> \A q \in DOMAIN rows : Len(rows[q]) > cx /\ Len(rows[q]) > cy
          /\ IsRealText(rows[q][cx + 1]) /\ IsRealText(rows[q][cy + 1]),
   rows |-> rows, cx |-> cx, cy |-> cy]
\* [ok, vars, funs]: the program run, expanded, and its functions (the text of the
\* call without argument -> table)
RunProgram(ss, tables) ==
  LET d == RunStmts(ss)
      vars == WithNative(d.vars)
      ok == d.ok /\ ~Known(d.vars, Native)
      exp == [q \in DOMAIN vars |-> ExpandVar(vars, vars[q].name, {vars[q].name})]
      fq == {q \in DOMAIN vars : IsFun(vars, q)} IN
  IF ~ok \/ \E q \in DOMAIN vars : ~exp[q].ok THEN [ok |-> FALSE, vars |-> <<>>, funs |-> <<>>]
  ELSE IF \E q \in fq : ~FunOk(exp[q].t, tables) THEN [ok |-> FALSE, vars |-> <<>>, funs |-> <<>>]
  ELSE IF \E q \in fq : ~FunTable(exp[q].t, tables).ok THEN [ok |-> FALSE, vars |-> <<>>, funs |-> <<>>]
  ELSE [ok |-> TRUE, vars |-> [q \in DOMAIN vars |-> [vars[q] EXCEPT !.v = exp[q].t]],
        funs |-> [c \in {exp[q].t : q \in fq} |-> FunTable(c, tables)]]
\* --- values ----------------------------------------------------------------------
\* (...)(number): the value of a function
CallAt(t) == LET e == {q \in 2 .. Len(t) - 1 : t[q] = RPAR /\ t[q + 1] = LPAR} IN IF e = {} THEN 0 ELSE CHOOSE q \in e : \A u \in e : q <= u
IsCall(t) == Len(t) >= 4 /\ t[1] = LPAR /\ t[Len(t)] = RPAR /\ CallAt(t) > 0 /\ IsRealText(Sub(t, CallAt(t) + 2, Len(t) - 1))
ValueOf(t, funs) ==
  IF ~IsCall(t) THEN [ok |-> TRUE, t |-> t]
  ELSE LET f == Sub(t, 1, CallAt(t))  x == Sub(t, CallAt(t) + 2, Len(t) - 1) IN
       IF f \notin DOMAIN funs THEN Fail
       ELSE LET r == funs[f].rows  hit == FirstAt(r, LAMBDA w : GText(w[funs[f].cx + 1]) = GText(x)) IN
            IF hit = 0 THEN Fail ELSE [ok |-> TRUE, t |-> GText(r[hit][funs[f].cy + 1])]
\* complex numbers: a, i, -i, aib, ib
IsCplxText(s) ==
  LET p == FirstAt(s, LAMBDA c : c = 105) IN
  \/ s = <<105>> \/ s = <<45, 105>>
  \/ p = 0 /\ IsRealText(s)
  \/ p > 0 /\ (p = 1 \/ IsRealText(Sub(s, 1, p - 1))) /\ IsRealText(Sub(s, p + 1, Len(s)))
CplxOf(s) ==
  LET p == FirstAt(s, LAMBDA c : c = 105) IN
  IF s = <<105>> THEN <<0, 1000>> ELSE IF s = <<45, 105>> THEN <<0, -1000>>
  ELSE IF p = 0 THEN <<Milli(s), 0>>
  ELSE <<IF p = 1 THEN 0 ELSE Milli(Sub(s, 1, p - 1)), Milli(Sub(s, p + 1, Len(s)))>>
\* one element of kind i, d, z, s: [ok, v]
Element(t, k, funs) ==
  LET e == ValueOf(t, funs) IN
  IF ~e.ok THEN [ok |-> FALSE, v |-> <<>>]
  ELSE CASE k \in {"i", "u"} -> IF IsIntText(e.t) THEN [ok |-> TRUE, v |-> <<IntOf(e.t)>>] ELSE [ok |-> FALSE, v |-> <<>>]
         [] k = "d" -> IF IsRealText(e.t) THEN [ok |-> TRUE, v |-> <<Milli(e.t)>>] ELSE [ok |-> FALSE, v |-> <<>>]
         [] k = "z" -> IF IsCplxText(e.t) THEN [ok |-> TRUE, v |-> CplxOf(e.t)] ELSE [ok |-> FALSE, v |-> <<>>]
         [] k = "s" -> [ok |-> TRUE, v |-> e.t]
Scalar(t, k, funs) ==
  IF k # "s" THEN Element(t, k, funs)
  ELSE LET e == Element(t, k, funs) IN
       IF e.ok /\ Len(e.v) > 1 /\ e.v[1] = QUOTE /\ e.v[Len(e.v)] = QUOTE THEN [ok |-> TRUE, v |-> Unquote(e.v)] ELSE e
\* [a,b,...]: [ok, parts, rest] of the front of a text without blanks
List(s) ==
  LET e == FirstAt(s, LAMBDA c : c = RBR)
      inner == Sub(s, 2, e - 1)  parts == SplitBy(inner, COMMA) IN
  IF s = <<>> \/ s[1] # LBR \/ e = 0 \/ Has(inner, LBR) \/ <<>> \in Elems(parts) THEN [ok |-> FALSE, parts |-> <<>>, rest |-> <<>>]
  ELSE [ok |-> TRUE, parts |-> parts, rest |-> Sub(s, e + 1, Len(s))]
Dots == <<46, 46, 46>>
DotsX == Dots \o <<120>>
AllOk(es) == \A q \in DOMAIN es : es[q].ok
NotRead == [ok |-> FALSE, v |-> <<>>]
\* had: how many elements the destination has
Vector(t, k, funs, had) ==
  LET l == List(NoBlanks(t))  p == l.parts IN
  IF ~l.ok THEN NotRead
  ELSE IF Len(p) = 2 /\ p[2] = Dots THEN
    LET e == Element(p[1], k, <<>>) IN IF had = 0 \/ ~e.ok THEN NotRead ELSE [ok |-> TRUE, v |-> [q \in 1 .. had |-> e.v]]
  ELSE IF Len(p) = 2 /\ Len(p[2]) > 4 /\ Sub(p[2], 1, 4) = DotsX THEN
    LET n == Sub(p[2], 5, Len(p[2]))  e == Element(p[1], k, <<>>) IN
    IF ~IsIntText(n) \/ ~e.ok THEN NotRead
    ELSE IF IntOf(n) <= 0 THEN NotRead ELSE [ok |-> TRUE, v |-> [q \in 1 .. IntOf(n) |-> e.v]]
  ELSE LET es == [q \in DOMAIN p |-> Element(p[q], k, funs)] IN
       IF ~AllOk(es) THEN NotRead ELSE [ok |-> TRUE, v |-> [q \in DOMAIN es |-> es[q].v]]
RECURSIVE Rows(_)
Rows(s) ==
  LET l == List(s) IN
  IF ~l.ok THEN [ok |-> FALSE, rows |-> <<>>, rest |-> <<>>]
  ELSE IF l.rest # <<>> /\ l.rest[1] = COMMA
  THEN LET m == Rows(Tail(l.rest)) IN [ok |-> m.ok, rows |-> <<l.parts>> \o m.rows, rest |-> m.rest]
  ELSE [ok |-> TRUE, rows |-> <<l.parts>>, rest |-> l.rest]
\* [ok, v]: the rows
MatrixOf(t, k, funs) ==
  LET s == NoBlanks(t)  r == Rows(Tail(s)) IN
  IF Len(s) > 1 /\ s[1] = LBR /\ s[2] = RBR THEN [ok |-> TRUE, v |-> <<>>]
  ELSE IF Len(s) < 2 \/ s[1] # LBR THEN NotRead
  ELSE IF ~r.ok \/ r.rest = <<>> THEN NotRead
  ELSE IF r.rest[1] # RBR \/ \E q \in DOMAIN r.rows : Len(r.rows[q]) # Len(r.rows[1]) THEN NotRead
  ELSE LET es == [i \in DOMAIN r.rows |-> [j \in DOMAIN r.rows[i] |-> Element(r.rows[i][j], k, funs)]] IN
       IF \E i \in DOMAIN es : ~AllOk(es[i]) THEN NotRead
       ELSE [ok |-> TRUE, v |-> [i \in DOMAIN es |-> [j \in DOMAIN es[i] |-> es[i][j].v]]]
\* text behind the closing bracket is not part of the value (a warning is printed)
ReadAs(t, shape, k, funs, had) ==
  CASE shape = "s" -> Scalar(t, k, funs)
    [] shape = "v" -> Vector(t, k, funs, had)
    [] shape = "m" -> MatrixOf(t, k, funs)
\* reading variable name of a program that ran
ReadVar(p, name, shape, k, had) ==
  IF ~Known(p.vars, name) THEN NotRead
  ELSE LET v == p.vars[Where(p.vars, name)].v IN
       IF v \in {<<>>, NoVal} THEN NotRead ELSE ReadAs(v, shape, k, p.funs, had)
Unused(p, used) == Map(Sel(p.vars, LAMBDA v : v.bang /\ v.name \notin used), LAMBDA v : v.name)
=============================================================================
