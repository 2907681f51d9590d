------------------------------- MODULE MCPsiTag -------------------------------
(* A file is written change by change, in every layout, and what it says is compared
   with the changes; then the texts are put together.  TLC shows that the layout does
   not matter, that changes to other names do not matter to a tag, and that putting
   together is refused exactly for names that are missing or lead back to themselves. *)
EXTENDS PsiTag, Json
CONSTANTS MaxChanges, EmitMod
VARIABLES cs, file, t, ok
vars == <<cs, file, t, ok>>
A == <<97>>  B == <<98, 32, 98>>
Lines1 == {<<120>>, <<121, 120>>, <<60, 97>>, <<60, 32, 98, 32, 98>>, <<92, 60, 97>>, <<>>}
Bodies == {<<l>> : l \in Lines1} \cup {<<<<120>>, <<60, 97>>>>, <<<<121>>, <<120>>, <<40, 41, 92>>>>}
Join(b) == FlattenSeq([q \in DOMAIN b |-> b[q] \o <<NL>>])
ModeText(m) == CASE m = "set" -> <<61>> [] m = "add" -> <<43, 61>> [] m = "opt" -> <<61, 63>> [] m = "new" -> <<61, 33>>
                 [] m = "cut" -> <<45, 61>> [] m = "cut!" -> <<45, 61, 33>> [] OTHER -> <<61>>
\* ways to write the same change; a block ends with an empty line of its own or with its last line
Layouts(m, n, b) ==
  IF m = "del" THEN {n \o <<32, 61, 32, 40, 41, NL>>, n \o <<61, 40, 41, 32, NL>>}
  ELSE LET h == n \o <<32>> \o ModeText(m) \o <<32>> IN
       (IF Len(b) = 1 /\ b[1] # <<>> THEN {h \o b[1] \o <<NL>>, <<32>> \o h \o <<9>> \o <<40>> \o b[1] \o <<41, 32, NL>>} ELSE {})
       \cup {h \o <<40, NL>> \o Piece(Join(b), 1, Len(Join(b)) - 1) \o <<41, NL>>,
             <<35, 99, NL, 32, NL>> \o h \o <<40>> \o Piece(Join(b), 1, Len(Join(b)) - 1) \o <<32, 41, NL>>}
Meant(x, b) == NoEmptyEnd([q \in DOMAIN TextLines(x) |-> RTrim(LTrim(TextLines(x)[q]))]) = NoEmptyEnd(b)
Init == cs = <<>> /\ file = <<>> /\ t = <<>> /\ ok = TRUE
Do == /\ ok /\ Len(cs) < MaxChanges
      /\ \E m \in Modes, n \in {A, B}, b \in Bodies :
           /\ (m = "del" => b = <<<<>>>>)
           /\ \E f \in Layouts(m, n, b) :
                LET says == FileSays(f) IN
                /\ cs' = Append(cs, says.cs[1]) /\ file' = file \o f
                /\ ok' = ~Refused(t, says.cs[1])
                /\ t' = IF ok' THEN Change(t, says.cs[1]) ELSE t
                /\ Assert(says.ok /\ Len(says.cs) = 1 /\ says.cs[1][1] = m /\ says.cs[1][2] = n, <<"layout", f>>)
                /\ Assert(m = "del" \/ Meant(says.cs[1][3], b), <<"body", f, b, says.cs[1][3]>>)
Next == Do
Spec == Init /\ [][Next]_vars
\* the whole file says what its changes say one by one
Same == LET z == FilesGive(<<file>>) IN z.ok = ok /\ (ok => z.t = t)
\* a file in two parts is the same as one
Parts == \A q \in {0} : LET z == FilesGive(<<file, <<>>>>) IN z.ok = ok
\* refused exactly when something is missing or leads back
RECURSIVE Reach(_, _)
Reach(S, k) == IF k = 0 THEN S ELSE Reach(S \cup UNION {IF Has(t, n) THEN RefsOf(t[n]) ELSE {} : n \in S}, k - 1)
Together == \A n \in DOMAIN t :
              LET r == Reach(RefsOf(t[n]), 3) IN
              Whole(t, t[n], {n}).ok = (\A u \in r : Has(t, u) /\ u \notin Reach(RefsOf(t[u]), 3))
\* nothing is left to be replaced, and what is not a reference stays
Closed == \A n \in DOMAIN t : LET w == Whole(t, t[n], {n}) IN
             (w.ok /\ RefsOf(t[n]) = {}) => w.s = FlattenSeq([q \in DOMAIN TextLines(t[n]) |-> Unescape(TextLines(t[n])[q]) \o <<NL>>])
Emit == (file # <<>> /\ (EmitMod = 1 \/ (Len(file) * 7 + Len(cs)) % EmitMod = 0)) => PrintT("@@" \o ToJson([f |-> file]))
=============================================================================
