-------------------------------- MODULE PsiTag --------------------------------
(* Build configuration files: named pieces of text (tags) that are set, extended, cut
   and put together from one another.  Texts are sequences of character codes.
   The tags are a function from names to texts.                                     *)
EXTENDS Lists, TLC
NL == 10
Blank(c) == c \in {32, 9}
AllBlank(s) == \A q \in DOMAIN s : Blank(s[q])
Piece(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ Blank(s[1]) THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN RTrim(Piece(s, 1, Len(s) - 1)) ELSE s
FirstOf(s, P(_)) == LET e == {q \in DOMAIN s : P(s[q])} IN IF e = {} THEN 0 ELSE CHOOSE q \in e : \A u \in e : q <= u
IsNL(c) == c = NL
RECURSIVE SplitNL(_)
SplitNL(s) == LET p == FirstOf(s, IsNL) IN
              IF p = 0 THEN <<s>> ELSE <<Piece(s, 1, p - 1)>> \o SplitNL(Piece(s, p + 1, Len(s)))
\* the lines of a file: a last line needs no newline
FileLines(s) == LET l == SplitNL(s) IN IF l[Len(l)] = <<>> THEN Piece(l, 1, Len(l) - 1) ELSE l
RECURSIVE NoEmptyEnd(_)
NoEmptyEnd(l) == IF l # <<>> /\ l[Len(l)] = <<>> THEN NoEmptyEnd(Piece(l, 1, Len(l) - 1)) ELSE l
Special(c) == c \in {61, 43, 63, 33, 45, 60, 38, 42}    \* = + ? ! - < & *
NotSpecial(c) == ~Special(c)
\* blanks at the ends do not count, and two in a row count once
RECURSIVE Squeeze(_)
Squeeze(s) == IF Len(s) < 2 THEN s
              ELSE IF Blank(s[1]) /\ Blank(s[2]) THEN Squeeze(<<32>> \o Piece(s, 3, Len(s)))
              ELSE <<s[1]>> \o Squeeze(Tail(s))
Canon(s) == Squeeze(RTrim(LTrim([q \in DOMAIN s |-> IF s[q] = NL THEN 32 ELSE s[q]])))
(* --- changing tags ----------------------------------------------------------------
   A change is <<mode, name, text>>                                                 *)
Modes == {"del", "set", "add", "opt", "new", "cut", "cut!"}
Has(t, n) == n \in DOMAIN t
Text(t, n) == IF Has(t, n) THEN t[n] ELSE <<>>
Starts(s, f, q) == q + Len(f) - 1 <= Len(s) /\ Piece(s, q, q + Len(f) - 1) = f
Occurs(s, f) == \E q \in 1 .. Len(s) + 1 : Starts(s, f, q)
RECURSIVE Without(_, _)
Without(s, f) == IF f = <<>> \/ s = <<>> THEN s
                 ELSE IF Starts(s, f, 1) THEN Without(Piece(s, Len(f) + 1, Len(s)), f)
                 ELSE <<s[1]>> \o Without(Tail(s), f)
Refused(t, c) == \/ c[1] = "new" /\ Has(t, c[2])
                 \/ c[1] = "cut!" /\ ~Occurs(Text(t, c[2]), c[3])
                 \/ c[1] \notin Modes
Put(t, n, x) == (n :> x) @@ t
Change(t, c) ==
  CASE c[1] = "del" -> [n \in DOMAIN t \ {c[2]} |-> t[n]]
    [] c[1] = "set" -> Put(t, c[2], c[3])
    [] c[1] = "add" -> Put(t, c[2], Text(t, c[2]) \o c[3])
    [] c[1] \in {"opt", "new"} -> IF Has(t, c[2]) THEN t ELSE Put(t, c[2], c[3])
    [] OTHER -> IF Occurs(Text(t, c[2]), c[3]) THEN Put(t, c[2], Without(Text(t, c[2]), c[3])) ELSE t
\* [ok, t]: all of them, in order
Changes(t, cs) == FoldLeft(LAMBDA a, c : IF ~a.ok \/ Refused(a.t, c) THEN [ok |-> FALSE, t |-> a.t] ELSE [ok |-> TRUE, t |-> Change(a.t, c)],
                           [ok |-> TRUE, t |-> t], cs)
(* --- what a file says: its changes, or a refusal ----------------------------------- *)
ModeOf(m) == CASE m = <<61>> -> "set" [] m = <<43, 61>> -> "add" [] m = <<61, 63>> -> "opt" [] m = <<61, 33>> -> "new"
               [] m = <<45, 61>> -> "cut" [] m = <<45, 61, 33>> -> "cut!" [] OTHER -> "unknown"
EndsPar(s) == RTrim(s) # <<>> /\ RTrim(s)[Len(RTrim(s))] = 41
CutPar(s) == Piece(s, 1, Len(RTrim(s)) - 1)
LineSays(a, line) ==
  LET p == FirstOf(line, Special)
      tag == Piece(line, 1, p - 1)
      m == FirstOf(Piece(line, p, Len(line)), NotSpecial)
      mode == IF m = 0 THEN Piece(line, p, Len(line)) ELSE Piece(line, p, p + m - 2)
      rest == IF m = 0 THEN <<>> ELSE LTrim(Piece(line, p + m - 1, Len(line)))
      opens == rest # <<>> /\ rest[1] = 40
      r1 == IF opens THEN Tail(rest) ELSE rest
      closes == EndsPar(r1)
      r2 == IF closes THEN CutPar(r1) ELSE r1
      c(x) == <<ModeOf(mode), Canon(tag), x>>
      bad == [a EXCEPT !.ok = FALSE] IN
  IF (line # <<>> /\ line[1] = 35) \/ AllBlank(line) THEN a
  ELSE IF p < 2 THEN bad
  ELSE IF mode = <<61>> /\ RTrim(rest) = <<40, 41>> THEN [a EXCEPT !.cs = Append(@, <<"del", Canon(tag), <<>>>>)]
  ELSE IF closes /\ ~opens THEN bad
  ELSE IF opens /\ ~closes THEN [a EXCEPT !.open = c(IF AllBlank(r1) THEN <<>> ELSE LTrim(r1) \o <<NL>>), !.block = TRUE]
  ELSE [a EXCEPT !.cs = Append(@, c(LTrim(r2 \o <<NL>>)))]
BlockLine(a, line) ==
  LET t == LTrim(line)  more(x) == <<a.open[1], a.open[2], a.open[3] \o x \o <<NL>>>> IN
  IF EndsPar(t) THEN [a EXCEPT !.cs = Append(@, more(CutPar(t))), !.block = FALSE]
  ELSE [a EXCEPT !.open = more(t)]
FileSays(s) ==
  LET z == FoldLeft(LAMBDA a, line : IF ~a.ok THEN a ELSE IF a.block THEN BlockLine(a, line) ELSE LineSays(a, line),
                    [ok |-> TRUE, block |-> FALSE, open |-> <<"", <<>>, <<>>>>, cs |-> <<>>], FileLines(s)) IN
  [ok |-> z.ok /\ ~z.block, cs |-> z.cs]
\* several files, one after the other, into the same tags
FilesGive(fs) ==
  FoldLeft(LAMBDA a, f : LET s == FileSays(f) IN
                         IF ~a.ok \/ ~s.ok THEN [ok |-> FALSE, t |-> a.t] ELSE Changes(a.t, s.cs),
           [ok |-> TRUE, t |-> <<>>], fs)
(* --- putting texts together --------------------------------------------------------- *)
IsRef(line) == LTrim(line) # <<>> /\ LTrim(line)[1] = 60
RefName(line) == Canon(Tail(LTrim(line)))
Unescape(line) ==
  LET a == IF LTrim(line) # <<>> /\ LTrim(line)[1] = 92 THEN Tail(LTrim(line)) ELSE line
      b == RTrim(a) IN
  IF b # <<>> /\ b[Len(b)] = 92 THEN Piece(a, 1, Len(b) - 1) \o Piece(a, Len(b) + 1, Len(a)) ELSE a
TextLines(s) == NoEmptyEnd(SplitNL(s))
RefsOf(s) == {RefName(l) : l \in {x \in Elems(TextLines(s)) : IsRef(x)}}
\* open: the names being put together
RECURSIVE Whole(_, _, _)
Whole(t, s, open) ==
  FoldLeft(LAMBDA a, line :
             IF ~a.ok THEN a
             ELSE IF ~IsRef(line) THEN [ok |-> TRUE, s |-> a.s \o Unescape(line) \o <<NL>>]
             ELSE IF RefName(line) \in open \/ ~Has(t, RefName(line)) THEN [ok |-> FALSE, s |-> <<>>]
             ELSE LET w == Whole(t, t[RefName(line)], open \cup {RefName(line)}) IN
                  [ok |-> w.ok, s |-> a.s \o w.s \o <<NL>>],
           [ok |-> TRUE, s |-> <<>>], TextLines(s))
DefaultFlavor == <<100, 101, 102, 97, 117, 108, 116, 32, 102, 108, 97, 118, 111, 114>>
FlavorPrefix == <<102, 108, 97, 118, 111, 114, 32>>
\* given = <<>>: the default one
Flavor(t, given) ==
  LET name == FlavorPrefix \o (IF given = <<>> THEN Canon(Text(t, DefaultFlavor)) ELSE given) IN
  IF ~Has(t, name) THEN [ok |-> FALSE, s |-> <<>>] ELSE Whole(t, t[name], {})
(* --- the files used: the base one and, after it, the one given or else the one that the user's environment names *)
FilesUsed(base, given, env) == <<base>> \o (IF given # <<>> THEN given ELSE IF env \in {<<>>, <<<<>>>>} THEN <<>> ELSE env)
=============================================================================
