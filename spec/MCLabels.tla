-------------------------------- MODULE MCLabels --------------------------------
(* Scanners that see each character once.  mode "op": an operator label; "site": a
   label with brackets; "vec": the body of a bra or ket.  TLC shows that for all
   short texts they accept and deliver exactly what Labels says.                 *)
EXTENDS Labels, Json
CONSTANTS MaxText
VARIABLES mode, text, pos, st
vars == <<mode, text, pos, st>>
Chars(m) == CASE m = "op" -> {97, 63, 39, 49, 48} [] m = "site" -> {97, 91, 93, 49} [] m = "vec" -> {80, 81, 82, 88, 49, 48, 103, 115}
Start(m) == CASE m = "op" -> [name |-> <<>>, num |-> <<>>, mark |-> FALSE, quote |-> FALSE, bad |-> FALSE]
              [] m = "site" -> [pre |-> <<>>, mid |-> <<>>, post |-> <<>>, open |-> FALSE, has |-> FALSE, bad |-> FALSE]
              [] m = "vec" -> [at |-> "begin", kind |-> "", first |-> <<>>, second |-> <<>>]
Init == \E m \in {"op", "site", "vec"} : mode = m /\ text \in UNION {[1..n -> Chars(m)] : n \in 0..MaxText} /\ pos = 0 /\ st = Start(m)
\* a quote is the transposition only if nothing follows, so it is put down one step late
Put(s, c) == IF s.mark THEN [s EXCEPT !.num = Append(@, c), !.bad = @ \/ ~IsDig(c)] ELSE [s EXCEPT !.name = Append(@, c)]
Unquote(s) == IF s.quote THEN [Put(s, 39) EXCEPT !.quote = FALSE] ELSE s
OpStep(s, c) == LET u == Unquote(s) IN
  IF c = 39 THEN [u EXCEPT !.quote = TRUE] ELSE IF c = 63 /\ ~u.mark THEN [u EXCEPT !.mark = TRUE] ELSE Put(u, c)
SiteStep(s, c) ==
  IF c = 91 THEN (IF s.open THEN [s EXCEPT !.bad = TRUE]
                  ELSE IF s.has THEN [s EXCEPT !.pre = s.pre \o <<91>> \o s.mid \o <<93>> \o s.post, !.mid = <<>>, !.post = <<>>, !.open = TRUE]
                  ELSE [s EXCEPT !.open = TRUE, !.has = TRUE])
  ELSE IF c = 93 THEN (IF s.open THEN [s EXCEPT !.open = FALSE] ELSE [s EXCEPT !.bad = TRUE])
  ELSE IF s.open THEN [s EXCEPT !.mid = Append(@, c)] ELSE IF s.has THEN [s EXCEPT !.post = Append(@, c)] ELSE [s EXCEPT !.pre = Append(@, c)]
VecStep(s, c) ==
  IF s.at = "begin" THEN (CASE c = 80 -> [s EXCEPT !.at = "first", !.kind = "P"] [] c = 81 -> [s EXCEPT !.at = "first", !.kind = "E"]
                            [] c = 82 -> [s EXCEPT !.at = "only", !.kind = "R"] [] c = 88 -> [s EXCEPT !.at = "second", !.kind = "E", !.first = <<48>>]
                            [] c = 103 -> [s EXCEPT !.at = "g", !.kind = "E"] [] OTHER -> [s EXCEPT !.at = "bad"])
  ELSE IF s.at = "g" /\ c = 115 THEN [s EXCEPT !.at = "gs"]
  ELSE IF s.at \in {"first", "only"} /\ IsDig(c) THEN [s EXCEPT !.first = Append(@, c)]
  ELSE IF s.at = "first" /\ c = 88 /\ s.first # <<>> THEN [s EXCEPT !.at = "second"]
  ELSE IF s.at = "second" /\ IsDig(c) THEN [s EXCEPT !.second = Append(@, c)]
  ELSE [s EXCEPT !.at = "bad"]
Next == /\ pos < Len(text) /\ pos' = pos + 1 /\ UNCHANGED <<mode, text>>
        /\ st' = LET c == text[pos + 1] IN CASE mode = "op" -> OpStep(st, c) [] mode = "site" -> SiteStep(st, c) [] mode = "vec" -> VecStep(st, c)
Spec == Init /\ [][Next]_vars
Over == pos = Len(text)
Nat0(s) == IF s = <<>> THEN 0 ELSE NatOf(s, 0)
OpAgree == (Over /\ mode = "op") => LET y == OpLabel(text) IN
  /\ y.ok = ~(st.bad \/ (st.mark /\ st.num = <<>>))
  /\ y.ok => y = [ok |-> TRUE, label |-> st.name, dof |-> Nat0(st.num), transpose |-> st.quote]
SiteAgree == (Over /\ mode = "site") => LET y == Site(text, 91, 93) IN
  /\ y.ok = ~(st.bad \/ st.open)
  /\ y.ok => y = [ok |-> TRUE, has |-> st.has, root |-> st.pre \o st.post, site |-> st.mid]
VecAgree == (Over /\ mode = "vec") => LET y == BodyOf(text) IN
  /\ y.ok = (st.at = "gs" \/ (st.at = "only" /\ st.first # <<>>) \/ (st.at = "first" /\ st.first # <<>>) \/ (st.at = "second" /\ st.second # <<>>))
  /\ y.ok => y = [ok |-> TRUE, kind |-> st.kind, first |-> Nat0(st.first), second |-> Nat0(st.second)]
Emit == pos = 0 => PrintT("@@" \o ToJson([m |-> mode, t |-> text]))
=============================================================================
