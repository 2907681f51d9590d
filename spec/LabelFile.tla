------------------------------ MODULE LabelFile ------------------------------
(* A labelled text file and a reader of it.  The file is a sequence of words; the
   reader stands behind the first p of them.  A label is found at every word that
   begins with it; a scalar is the rest of that word, anything longer the words
   that follow.  Level k is the k-th occurrence (from 0) behind the position, Final
   the last one.                                                                 *)
EXTENDS TextIO
Final == -1
BeginsWith(w, s) == Len(s) <= Len(w) /\ SubSeq(w, 1, Len(s)) = s
\* the positions behind p where s occurs, in order
Occ(ws, p, s) == Sel([q \in 1 .. Len(ws) |-> q], LAMBDA q : q > p /\ BeginsWith(ws[q], s))
Found(ws, p, s, level) == LET o == Occ(ws, p, s) IN IF level = Final THEN o # <<>> ELSE Len(o) > level
Spot(ws, p, s, level) == LET o == Occ(ws, p, s) IN IF level = Final THEN o[Len(o)] ELSE o[level + 1]
After(w, s) == SubSeq(w, Len(s) + 1, Len(w))
\* how many occurrences a search reports
Passed(ws, p, s, level) == IF level = Final THEN Len(Occ(ws, p, s)) ELSE level
\* a failed search has read the whole file
ReadScalar(f, s, level, t) ==
  IF ~Found(f.w, f.p, s, level) THEN [ok |-> FALSE, f |-> [f EXCEPT !.p = Len(f.w)]]
  ELSE LET q == Spot(f.w, f.p, s, level) IN
       [ok |-> TRUE, v |-> FromText(t, After(f.w[q], s)), n |-> Passed(f.w, f.p, s, level), f |-> [f EXCEPT !.p = q]]
ReadValue(f, s, level, k, t) ==
  IF ~Found(f.w, f.p, s, level) THEN [ok |-> FALSE, f |-> [f EXCEPT !.p = Len(f.w)]]
  ELSE LET q == Spot(f.w, f.p, s, level)  x == Parse(IF k = "m" THEN "m" ELSE "v", t, SubSeq(f.w, q + 1, Len(f.w))) IN
       [ok |-> TRUE, v |-> x.x, f |-> [f EXCEPT !.p = Len(f.w) - Len(x.rest)]]
\* advance goes behind the occurrence, but with Final in front of the last one (and
\* behind the one before)
Advance(f, s, level) ==
  IF ~Found(f.w, f.p, s, level) THEN [ok |-> FALSE, f |-> [f EXCEPT !.p = Len(f.w)]]
  ELSE LET o == Occ(f.w, f.p, s)  q == Spot(f.w, f.p, s, level) IN
       [ok |-> TRUE, w |-> f.w[q], n |-> Passed(f.w, f.p, s, level),
        f |-> [f EXCEPT !.p = IF level # Final THEN q ELSE IF Len(o) > 1 THEN o[Len(o) - 1] ELSE f.p]]
Back(f) == [f EXCEPT !.p = 0]
(* --- writing -------------------------------------------------------------------- *)
ScalarWords(label, t, e) == <<label \o <<61>> \o EntryText(t, e)>>
ValueWords(label, t, x) == <<label>> \o Tokens(t, x)
=============================================================================
