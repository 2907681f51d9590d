----------------------------- MODULE Progress -----------------------------
(* What a process writes: progress lines of indicators, messages, timed sections, the
   buffer that a signal switches on and off, and standard output that is sent to a file.
   Texts are sequences of words; "/" ends a line, "[#]:" stands for a time.            *)
EXTENDS Integers, Sequences, SequencesExt, Functions, FiniteSets, TLC
None == 0
\* inds: <<caller, thread>>
Start(old) ==
  [out |-> <<>>, file |-> [f \in {"A", "B"} |-> IF old THEN <<"OLD", "/">> ELSE <<>>], there |-> [f \in {"A", "B"} |-> old],
   to |-> "", unbuf |-> FALSE, buf |-> <<>>, active |-> FALSE, saved |-> <<"-">>, err |-> <<>>, sec |-> <<>>, thrown |-> <<>>, said |-> <<>>, snap |-> <<>>, prec |-> 6]
Say(s, w) == IF s.to = "" THEN [s EXCEPT !.out = @ \o w] ELSE [s EXCEPT !.file[s.to] = @ \o w]
\* by thread 0 only, and while it is active the buffer too
Report(s, caller, thread, w) ==
  IF thread # 0 THEN s
  ELSE LET l == <<caller, "[#]:">> \o w  t == Say(s, l) IN IF s.active THEN [t EXCEPT !.buf = @ \o l] ELSE t
Line(w) == w \o <<"/">>
Toggle(s, sig) ==
  [s EXCEPT !.saved = IF s.active THEN s.buf \o <<"/">> ELSE @, !.buf = <<>>, !.active = ~@,
            !.err = @ \o <<"ProgressIndicator:", "signal", "#", "received.", "buffer", "is", "now", IF s.active THEN "inactive" ELSE "active", "/">>]
\* a process sends its output to a file once
Redirect(s, k, f, app, unbuf) ==
  IF s.to # "" THEN [s EXCEPT !.thrown = Append(@, k)]
  ELSE [s EXCEPT !.to = f, !.unbuf = unbuf, !.there[f] = TRUE, !.file[f] = IF app THEN @ ELSE <<>>,
                 !.err = @ \o <<"Second:", "Standard", "output", "sent", "to", f, "/">>]
Memory == <<"Current", "virtual", "memory", "is", "#", "kB", "maximum", "was", "#", "kB">>
Do(s, k, a, inds, texts) ==
  LET i == inds[(a[2] % Len(inds)) + 1]  t == texts[(a[3] % Len(texts)) + 1] IN
  CASE a[1] \in {1, 2} -> Report(s, i[1], i[2], <<t, "/">>)
    [] a[1] = 3 -> Report(s, i[1], i[2], <<t>>)
    [] a[1] = 4 -> Toggle(s, a[2])
    [] a[1] = 5 -> Say(s, <<t>>)
    [] a[1] = 6 -> Redirect(s, k, IF a[2] = 0 THEN "A" ELSE "B", (a[3] % 2) = 1, a[3] >= 2)
    [] a[1] = 7 -> [s EXCEPT !.thrown = Append(@, k)]
    [] a[1] = 8 -> Report(s, i[1], i[2], Line(Memory))
    \* a section starts, ends with a message, or is left
    [] a[1] = 9 -> [Report(s, t, 0, <<"starting", "clock", "/">>) EXCEPT !.sec = Append(@, [c |-> t, open |-> TRUE])]
    [] a[1] = 10 -> [Report(s, t, 0, <<"starting", "clock", "more", "/">>) EXCEPT !.sec = Append(@, [c |-> t, open |-> TRUE])]
    [] a[1] \in {11, 12, 15} ->
         IF s.sec = <<>> THEN s
         ELSE LET q == (a[2] % Len(s.sec)) + 1  c == s.sec[q]
                  w == <<"stopping", "clock">> \o (IF a[1] = 11 THEN <<t>> ELSE <<>>) \o <<"/">>
                  x == IF c.open THEN Report(s, c.c, 0, w) ELSE s IN
              [x EXCEPT !.sec[q].open = FALSE]
    [] a[1] = 13 -> [s EXCEPT !.said = Append(@, IF s.to = "" THEN 0 ELSE 1)]
    \* the precision asked for is nobody else's business
    [] a[1] = 16 -> [s EXCEPT !.prec = a[2]]
    [] a[1] = 17 -> [s EXCEPT !.said = Append(@, s.prec)]
    [] a[1] = 14 -> IF s.unbuf THEN [s EXCEPT !.snap = Append(@, s.file[s.to])] ELSE s
RECURSIVE Run(_, _, _, _, _)
Run(s, acts, k, inds, texts) == IF k > Len(acts) THEN s ELSE Run(Do(s, k, acts[k], inds, texts), acts, k + 1, inds, texts)
(* --- the status of the process: what is behind the first place of a label, up to the end of the line ---- *)
PlaceOf(s, l) == LET q == {i \in 1 .. Len(s) - Len(l) + 1 : SubSeq(s, i, i + Len(l) - 1) = l} IN
                 IF q = {} THEN 0 ELSE CHOOSE i \in q : \A j \in q : i <= j
LineFrom(s, i) == LET q == {j \in i .. Len(s) : s[j] = 10} IN
                  SubSeq(s, i, (IF q = {} THEN Len(s) ELSE (CHOOSE j \in q : \A k \in q : j <= k) - 1))
NoBlanks(s) == LET q == {i \in 1 .. Len(s) : s[i] \notin {32, 9}} IN
               IF q = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in q : \A j \in q : i <= j, Len(s))
NotFound == <<78, 79, 84, 95, 70, 79, 85, 78, 68>>
EntryOf(s, l) == LET p == PlaceOf(s, l) IN IF p = 0 THEN NotFound ELSE NoBlanks(LineFrom(s, p + Len(l)))
(* --- the environment of the process: a name is not empty and holds no = sign ----------------------------- *)
NameOk(n) == n # <<>> /\ \A i \in DOMAIN n : n[i] # 61
Said(n, v) == <<83, 101, 116, 32>> \o n \o <<61>> \o v \o <<10>>
=============================================================================
