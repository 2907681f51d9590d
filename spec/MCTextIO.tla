------------------------------ MODULE MCTextIO ------------------------------
(* A stream as a queue: values of any kind are printed one after another, and
   reading them back in order gives the same values and leaves nothing.          *)
EXTENDS TextIO, TLC, Json
CONSTANTS MaxPut
VARIABLES fifo, toks, hist
vars == <<fifo, toks, hist>>
W == {<<65>>, <<40, 49>>}
E(t) == CASE t = "i" -> {<<0>>, <<-12>>} [] t = "d" -> {<<0>>, <<-3>>, <<401>>} [] t = "z" -> {<<1, -2>>, <<0, 4>>} [] t = "s" -> W
        [] t = "p" -> {<<1, 0>>} [] t = "v" -> {<<>>, <<2, -10>>}
Vecs(t) == {[k |-> "v", a |-> s] : s \in UNION {[1 .. n -> E(t)] : n \in 0 .. 2}}
Mats(t) == {[k |-> "m", r |-> sh[1], c |-> sh[2], a |-> s] :
             <<sh, s>> \in UNION {{<<sh, s>> : s \in [1 .. sh[1] * sh[2] -> E(t)]} : sh \in {<<0, 0>>, <<1, 2>>, <<2, 1>>, <<0, 2>>}}}
Init == fifo = <<>> /\ toks = <<>> /\ hist = <<>>
Put == /\ Len(hist) < MaxPut
       /\ \E t \in {"i", "d", "z", "s", "p", "v"} :
          \E x \in Vecs(t) \cup (IF t \in {"d", "z"} THEN Mats(t) ELSE {}) :
             /\ fifo' = Append(fifo, [t |-> t, x |-> x])
             /\ toks' = toks \o Tokens(t, x)
             /\ hist' = Append(hist, [t |-> t, x |-> x])
Get == /\ fifo # <<>>
       /\ LET p == Parse(fifo[1].x.k, fifo[1].t, toks) IN
          /\ Assert(p.x = fifo[1].x, "reading gives something else")
          /\ toks' = p.rest
       /\ fifo' = Tail(fifo)
       /\ UNCHANGED hist
Emit == Len(hist) = 1 /\ fifo # <<>> => PrintT("@@" \o ToJson(hist[1]))
Next == Put \/ Get
Spec == Init /\ [][Next]_vars
Empty == fifo = <<>> => toks = <<>>
NumsExact == \A q \in -4000 .. 4000 : q % 97 = 0 => ToQuarters(NumText(q)) = q
ASSUME NumsExact
=============================================================================
