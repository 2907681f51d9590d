------------------------------- MODULE MCStrings -------------------------------
(* Splitting and replacing as scans from one position to the next, as the code does
   them; TLC shows for all short texts that they deliver what Strings says, and
   that nothing of the text is lost.                                             *)
EXTENDS Strings, TLC, Json
CONSTANTS MaxText
VARIABLES mode, s, a, b, last, pos, out, left
vars == <<mode, s, a, b, last, pos, out, left>>
Words(cs, n) == UNION {[1..k -> cs] : k \in 0..n}
Init == /\ \/ mode = "split" /\ s \in Words({97, 98, 32, 44}, MaxText) /\ a \in {<<32>>, <<32, 44>>, <<98>>, <<>>} /\ b = <<>>
           \/ mode = "replace" /\ s \in Words({97, 98}, MaxText) /\ a \in Words({97, 98}, 2) /\ b \in {<<>>, <<97>>, <<98, 97>>, <<97, 97, 98>>}
        /\ last = 0 /\ pos = 0 /\ out = <<>> /\ left = "begin"
\* positions count from 0; Len(s) stands for "none"
FirstOf(q) == LET e == {u \in q..(Len(s) - 1) : IsDelim(a, s[u + 1])} IN IF e = {} THEN Len(s) ELSE CHOOSE u \in e : \A v \in e : u <= v
FirstNot(q) == LET e == {u \in q..(Len(s) - 1) : ~IsDelim(a, s[u + 1])} IN IF e = {} THEN Len(s) ELSE CHOOSE u \in e : \A v \in e : u <= v
SplitStart == left = "begin" /\ mode = "split" /\ last' = FirstNot(0) /\ pos' = FirstOf(FirstNot(0)) /\ left' = "run" /\ UNCHANGED <<mode, s, a, b, out>>
SplitMore == /\ left = "run" /\ mode = "split" /\ UNCHANGED <<mode, s, a, b>>
             /\ IF last = Len(s) THEN left' = "end" /\ UNCHANGED <<last, pos, out>>
                ELSE out' = Append(out, Sub(s, last + 1, pos)) /\ last' = FirstNot(pos) /\ pos' = FirstOf(FirstNot(pos)) /\ UNCHANGED left
FindFrom(t, q) == LET e == {u \in (q + 1)..Len(t) : StartsAt(t, a, u)} IN IF e = {} THEN 0 ELSE CHOOSE u \in e : \A v \in e : u <= v
RepStart == left = "begin" /\ mode = "replace" /\ out' = s /\ left' = (IF a = <<>> THEN "end" ELSE "run") /\ UNCHANGED <<mode, s, a, b, last, pos>>
RepMore == /\ left = "run" /\ mode = "replace" /\ UNCHANGED <<mode, s, a, b, last>>
           /\ LET u == FindFrom(out, pos) IN
              IF u = 0 THEN left' = "end" /\ UNCHANGED <<pos, out>>
              ELSE out' = Sub(out, 1, u - 1) \o b \o Sub(out, u + Len(a), Len(out)) /\ pos' = u - 1 + Len(b) /\ UNCHANGED left
Next == SplitStart \/ SplitMore \/ RepStart \/ RepMore
Spec == Init /\ [][Next]_vars
Over == left = "end"
Agree == Over => out = (IF mode = "split" THEN Split(s, a) ELSE Replace(s, a, b))
\* what is not a delimiter stays, in order; pieces are maximal
NothingLost == (Over /\ mode = "split") =>
  (FlattenSeq(out) = SelectSeq(s, LAMBDA c : ~IsDelim(a, c))
   /\ (\A w \in DOMAIN out : out[w] # <<>>)
   /\ Len(out) = Cardinality({w \in DOMAIN s : ~IsDelim(a, s[w]) /\ (w = 1 \/ IsDelim(a, s[w - 1]))}))
Emit == left = "begin" => PrintT("@@" \o ToJson([m |-> mode, s |-> s, a |-> a, b |-> b]))
=============================================================================
