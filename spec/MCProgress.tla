----------------------------- MODULE MCProgress -----------------------------
(* Every sequence of a few actions. *)
EXTENDS Progress, Json
CONSTANTS MaxOps, EmitMod
VARIABLES s, h
vars == <<s, h>>
Inds == <<<<"Main", 0>>, <<"Other", 1>>>>
Texts == <<"alpha", "b">>
Acts == {<<1, 0, 0>>, <<1, 1, 0>>, <<2, 0, 0>>, <<2, 0, 1>>, <<3, 0, 1>>, <<4, 5, 0>>, <<5, 0, 0>>, <<6, 0, 0>>, <<6, 1, 3>>, <<8, 0, 0>>, <<9, 0, 1>>, <<11, 0, 0>>, <<12, 0, 0>>, <<14, 0, 0>>}
Init == s = Start(TRUE) /\ h = <<>>
Next == /\ Len(h) < MaxOps
        /\ \E a \in Acts : s' = Do(s, Len(h) + 1, a, Inds, Texts) /\ h' = Append(h, a)
        /\ IF Len(h') = MaxOps /\ EmitMod THEN PrintT("@@" \o ToJson(h')) ELSE TRUE
Spec == Init /\ [][Next]_vars
Same == s = Run(Start(TRUE), h, 1, Inds, Texts)
\* nothing is lost: what was written, wherever, is what there is, in order
RECURSIVE Count(_, _)
Count(w, x) == Cardinality({i \in DOMAIN w : w[i] = x})
Acted(P(_)) == Cardinality({i \in DOMAIN h : P(h[i])})
Everything == s.out \o (IF s.to = "" THEN <<>> ELSE s.file[s.to])
\* texts of lines, and those that end a section
Lines == Count(Everything, "alpha") = Acted(LAMBDA a : a[1] \in {1, 2, 5} /\ a[3] = 0 /\ a[2] = 0)
         + Cardinality({i \in DOMAIN Everything : i > 1 /\ Everything[i] = "alpha" /\ Everything[i - 1] = "clock"})
\* every line of an indicator has its caller and its time
Times == \A i \in DOMAIN Everything : Everything[i] = "Main" => i < Len(Everything) /\ Everything[i + 1] = "[#]:"
Silent == Count(Everything, "Other") = 0
\* a file that nothing is sent to keeps what it had
Kept == \A f \in {"A", "B"} : f # s.to => s.file[f] = <<"OLD", "/">>
\* what has been written stays
Monotone == [][IsPrefix(s.out, s'.out) /\ (s.to # "" => IsPrefix(s.file[s.to], s'.file[s.to]))]_vars
\* sections are stopped once
Stops == Count(Everything, "stopping") = Cardinality({q \in DOMAIN s.sec : ~s.sec[q].open}) /\ Count(Everything, "starting") = Len(s.sec)
=============================================================================
