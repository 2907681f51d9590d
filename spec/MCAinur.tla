------------------------------- MODULE MCAinur -------------------------------
(* All short programs over a few names and values, and all short value texts.      *)
EXTENDS Ainur, TLC, Json
CONSTANTS MaxStmts, MaxText
VARIABLES prog, text
vars == <<prog, text>>
NX == <<120>>  NY == <<121>>
Names == {NX, NY}
INT == <<105, 110, 116>>
Vals == {<<49>>, <<BACKSLASH, 120>>, <<BACKSLASH, 121>>, <<BACKSLASH, 120, BACKSLASH, 121>>, <<97, BACKSLASH, 121, 46>>, <<BACKSLASH, 113>>}
Stmts == [k : {"decl"}, ty : {INT, INT \o <<BANG>>}, name : Names]
         \cup [k : {"init"}, ty : {INT}, name : Names, v : Vals] \cup [k : {"set"}, name : Names, v : Vals]
Chars == {LBR, RBR, COMMA, 49, 45, 46, 32, 105}
Init == prog = <<>> /\ text = <<>>
AddStmt == text = <<>> /\ Len(prog) < MaxStmts /\ \E s \in Stmts : prog' = Append(prog, s) /\ UNCHANGED text
AddChar == prog = <<>> /\ Len(text) < MaxText /\ \E c \in Chars : text' = Append(text, c) /\ UNCHANGED prog
Next == AddStmt \/ AddChar
Spec == Init /\ [][Next]_vars
Run == RunProgram(prog, [n \in {} |-> <<>>])
\* the last value given to each name, by looking from the end
LastVal(name) == LET o == {q \in DOMAIN prog : prog[q].name = name /\ prog[q].k # "decl"} IN
                 IF o = {} THEN NoVal ELSE prog[CHOOSE q \in o : \A u \in o : u <= q].v
Decls(name) == Cardinality({q \in DOMAIN prog : prog[q].name = name /\ prog[q].k # "set"})
WellDeclared == /\ \A n \in Names : Decls(n) <= 1
                /\ \A q \in DOMAIN prog : prog[q].k = "set" => \E u \in 1 .. q - 1 : prog[u].name = prog[q].name /\ prog[u].k # "set"
Refs(v) == {n \in Names \cup {<<113>>} : \E q \in DOMAIN v : v[q] = BACKSLASH /\ Sub(v, q + 1, q + NameLen(Sub(v, q + 1, Len(v)))) = n}
Declared == {n \in Names : Decls(n) = 1}
RefsOf(n) == Refs(LastVal(n))
\* names reached from n by one or more references
Reach(n) == LET one == RefsOf(n)  two == UNION {RefsOf(m) : m \in one \cap Names} IN one \cup two \cup UNION {RefsOf(m) : m \in two \cap Names}
Sound == \A n \in Declared : Reach(n) \subseteq Declared /\ n \notin Reach(n)
Accepted == Run.ok <=> (WellDeclared /\ Sound)
LastWins == Run.ok => \A n \in Declared : Refs(LastVal(n)) = {} => Run.vars[Where(Run.vars, n)].v = LastVal(n)
NothingLeft == Run.ok => \A q \in DOMAIN Run.vars : ~Has(Run.vars[q].v, BACKSLASH)
Emit == /\ prog # <<>> /\ (Len(prog) = MaxStmts \/ Run.ok) => PrintT("@@" \o ToJson([p |-> prog]))
        /\ text # <<>> => PrintT("@@" \o ToJson([t |-> text]))
\* blanks do not count; an accepted matrix is a rectangle; a list inside brackets is
\* a matrix of one row
NF == [n \in {} |-> <<>>]
BlanksFree == /\ Vector(text, "z", NF, 2) = Vector(NoBlanks(text), "z", NF, 2)
              /\ MatrixOf(text, "z", NF) = MatrixOf(NoBlanks(text), "z", NF)
Rectangle == LET m == MatrixOf(text, "z", NF) IN m.ok => \A i \in DOMAIN m.v : Len(m.v[i]) = Len(m.v[1])
OneRow == LET v == Vector(text, "s", NF, 0)  m == MatrixOf(<<LBR>> \o text \o <<RBR>>, "s", NF) IN
          text # <<>> /\ v.ok /\ ~Has(text, 46) /\ List(NoBlanks(text)).rest = <<>> => m.ok /\ m.v = <<v.v>>
=============================================================================
