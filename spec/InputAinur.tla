------------------------------ MODULE InputAinur ------------------------------
(* Input files that hold a program: the first line starts with ##.  Lines
   !A$iB v0 v1 ... are written out as A0B=v0; A1B=v1; ... before the program runs,
   after the declarations of the application.                                     *)
EXTENDS Ainur
T == INSTANCE InputText
IsProgram(t) == Len(t) > 2 /\ t[1] = T!HASH /\ t[2] = T!HASH
\* the lines a line stands for
LinesOf(l, semi) ==
  IF ~T!IsRepl(l) THEN [ok |-> TRUE, ls |-> <<l>>]
  ELSE LET r == T!ReplOf(l) IN [ok |-> r.ok, ls |-> Map(r.es, LAMBDA w : w \o semi)]
WrittenOut(t) ==
  LET semi == IF IsProgram(t) THEN <<59>> ELSE <<>>
      ls == Map(T!Lines(t), LAMBDA l : LinesOf(l, semi)) IN
  IF \E q \in DOMAIN ls : ~ls[q].ok THEN [ok |-> FALSE, t |-> <<>>]
  ELSE [ok |-> TRUE, t |-> FoldLeft(LAMBDA acc, x : acc \o FoldLeft(LAMBDA a, w : a \o w \o <<T!NL>>, <<>>, x.ls), <<>>, ls)]
\* statements: a list line assigns to its names one after the other
Assigned(a, b, vs) == [q \in DOMAIN vs |-> [k |-> "set", name |-> a \o DigitsOf(q - 1) \o b, v |-> vs[q]]]
Flat(ss) == FoldLeft(LAMBDA acc, s : acc \o (IF s.k = "many" THEN Assigned(s.a, s.b, s.vs) ELSE <<s>>), <<>>, ss)
\* a label is a name, with or without an equal sign behind
NameOf(l) == IF l # <<>> /\ l[Len(l)] = T!EQ THEN Sub(l, 1, Len(l) - 1) ELSE l
=============================================================================
