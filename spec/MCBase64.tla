-------------------------------- MODULE MCBase64 --------------------------------
(* An encoder that keeps three bytes and a decoder that keeps four symbols, with
   shifts and masks, as in the code; for all short byte strings over the given
   bytes TLC shows that they compute the base64 text and give the bytes back.    *)
EXTENDS Base64, TLC, Json
CONSTANTS MaxLen, Bytes
VARIABLES data, rest, buf, text, phase, back
vars == <<data, rest, buf, text, phase, back>>
Init == data \in UNION {[1..n -> Bytes] : n \in 0..MaxLen} /\ rest = data /\ buf = <<>> /\ text = <<>> /\ phase = "enc" /\ back = <<>>
Four(b) == <<b[1] \div 4, (b[1] % 4) * 16 + (b[2] \div 16), (b[2] % 16) * 4 + (b[3] \div 64), b[3] % 64>>
Three(c) == <<((c[1] * 4) + (c[2] \div 16)) % 256, ((c[2] % 16) * 16 + (c[3] \div 4)) % 256, ((c[3] % 4) * 64 + c[4]) % 256>>
Sym(c) == [q \in DOMAIN c |-> Alphabet[c[q]]]
Pad(b, n) == [q \in 1..n |-> IF q <= Len(b) THEN b[q] ELSE 0]
EncByte == phase = "enc" /\ rest # <<>> /\ Len(buf) < 3 /\ buf' = Append(buf, Head(rest)) /\ rest' = Tail(rest) /\ UNCHANGED <<data, text, phase, back>>
EncFlush == phase = "enc" /\ Len(buf) = 3 /\ text' = text \o Sym(Four(buf)) /\ buf' = <<>> /\ UNCHANGED <<data, rest, phase, back>>
EncEnd == /\ phase = "enc" /\ rest = <<>> /\ Len(buf) < 3 /\ phase' = "dec" /\ buf' = <<>>
          /\ text' = IF buf = <<>> THEN text ELSE text \o SubSeq(Sym(Four(Pad(buf, 3))), 1, Len(buf) + 1) \o Const(3 - Len(buf), 61)
          /\ rest' = text' /\ UNCHANGED <<data, back>>
DecSym == phase = "dec" /\ Len(buf) < 4 /\ rest # <<>> /\ IsSymbol(Head(rest)) /\ buf' = Append(buf, Value(Head(rest))) /\ rest' = Tail(rest) /\ UNCHANGED <<data, text, phase, back>>
DecFlush == phase = "dec" /\ Len(buf) = 4 /\ back' = back \o Three(buf) /\ buf' = <<>> /\ UNCHANGED <<data, rest, text, phase>>
DecEnd == /\ phase = "dec" /\ Len(buf) < 4 /\ (IF rest = <<>> THEN TRUE ELSE ~IsSymbol(Head(rest))) /\ phase' = "end" /\ buf' = <<>> /\ UNCHANGED <<data, rest, text>>
          /\ back' = IF buf = <<>> THEN back ELSE back \o SubSeq(Three(Pad(buf, 4)), 1, Len(buf) - 1)
Next == EncByte \/ EncFlush \/ EncEnd \/ DecSym \/ DecFlush \/ DecEnd
Spec == Init /\ [][Next]_vars
Standard == phase # "enc" => text = Encode(data)
Padded == phase # "enc" => Len(text) % 4 = 0 /\ Len(text) = 4 * CeilDiv(Len(data), 3)
Inverts == phase = "end" => back = data /\ Decode(text) = data
Emit == phase = "end" => PrintT("@@" \o ToJson([d |-> data]))
=============================================================================
