------------------------------- MODULE MCPrefix -------------------------------
(* A reader that takes the tokens one by one and gives each to the argument place
   that has waited longest, until no place waits.  It builds, for every text, the
   tree whose level-by-level listing is what was read, and that tree is the one
   Prefix describes.                                                            *)
EXTENDS Prefix, TLC, Json
CONSTANTS MaxTokens
Alphabet == {Plus2, SinT, CondT, Times2, <<49>>, <<50>>}
VARIABLES toks, pos, waiting, kids
vars == <<toks, pos, waiting, kids>>
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxTokens}
Init == toks \in Texts /\ pos = 0 /\ waiting = <<0>> /\ kids = [n \in DOMAIN toks |-> <<>>]
Done == waiting = <<>> \/ pos = Len(toks)
Next == /\ ~Done
        /\ pos' = pos + 1
        /\ waiting' = Tail(waiting) \o [q \in 1..Arity(toks[pos + 1]) |-> pos + 1]
        /\ kids' = IF Head(waiting) = 0 THEN kids ELSE [kids EXCEPT ![Head(waiting)] = Append(@, pos + 1)]
        /\ UNCHANGED toks
Spec == Init /\ [][Next]_vars
\* the listing by levels of the tree below the nodes of one level
RECURSIVE Levels(_)
Levels(ns) == IF ns = <<>> THEN <<>> ELSE ns \o Levels(FlattenSeq([q \in DOMAIN ns |-> kids[ns[q]]]))
Complete == Done /\ waiting = <<>> /\ pos > 0
Agree == Done => /\ (Length(toks) > 0) = (waiting = <<>>)
                 /\ waiting = <<>> => /\ pos = Length(toks)
                                     /\ \A n \in 1..pos : kids[n] = Children(toks, n)
ByLevels == Complete => Levels(<<1>>) = [q \in 1..pos |-> q]
RECURSIVE Eval(_)
Eval(n) == IF kids[n] = <<>> THEN Lit("i", toks[n]) ELSE
           LET v == [q \in DOMAIN kids[n] |-> Eval(kids[n][q])] IN
           CASE toks[n] = Plus2 -> IntN(v[1].a + v[2].a) [] toks[n] = Times2 -> IntN(v[1].a * v[2].a)
             [] toks[n] = CondT -> (IF v[1].a # 0 THEN v[2] ELSE v[3]) [] OTHER -> v[1]
NoSin == \A q \in 1..pos : toks[q] # SinT
Values == (Complete /\ NoSin) => Eval(1) = Value("i", toks)
Emit == Done => PrintT("@@" \o ToJson([t |-> toks, ok |-> waiting = <<>>]))
=============================================================================
