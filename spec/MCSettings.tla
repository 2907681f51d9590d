----------------------------- MODULE MCSettings -----------------------------
(* All histories of setting changes and label operations up to a depth; each is
   also a script for the real library, read back in full after every step.      *)
EXTENDS Settings, TLC, Json
CONSTANTS Depth, Labels
VARIABLES s, hist
vars == <<s, hist>>
Init == s = S0 /\ hist = <<>>
Do(op, t) == s' = t /\ hist' = Append(hist, op)
Next == /\ Len(hist) < Depth
        /\ \/ \E n \in {1, 3} : Do(<<"ctor", n>>, Construct(s, n, TRUE))
           \/ \E np \in {1, 2}, np2 \in {1, 4} : Do(<<"set", np, np2>>, SetOptions(s, np, np2, np - 1, 1048576 * np2))
           \/ \E m \in 0 .. 3 : Do(<<"mode", m>>, [s EXCEPT !.mode = m])
           \/ \E lb \in Labels : Do(<<"dis", lb>>, Disable(s, lb)) \/ Do(<<"lab", lb>>, [s EXCEPT !.lab = @ \cup {lb}])
        /\ (Len(hist') = Depth => PrintT("@@" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
\* slots of different threads never collide, except where one slot serves all
NoCollision == \A np \in 1 .. 4 : \A a, b \in Range0(np) :
                 /\ Slot(s, a) < Slots(s, np)
                 /\ (a # b /\ s.mode # MPIM => Slot(s, a) # Slot(s, b))
OnlyIfAsked == \A lb \in Labels : IsDisabled(s, lb) => \E i \in DOMAIN hist : hist[i] = <<"dis", lb>>
Monotone == [][s.dis \subseteq s'.dis /\ s.lab \subseteq s'.lab]_vars
=============================================================================
