---------------------------- MODULE MC_Notation -----------------------------
(* Every label of a few code points: each notation reads back as the label.   *)
EXTENDS Notation, Json, IOUtils
VARIABLES x
Par == JsonDeserialize(IOEnv.PAR)                \* [alpha, size, emit]
Init == x = <<>>
Next == Len(x) < Par.size /\ \E c \in Rng(Par.alpha) : x' = Append(x, c)
Spec == Init /\ [][Next]_x
Foreign == \E k \in DOMAIN x : x[k] > 127
Punycode == Foreign => Decode(Encode(x)) = Ok(x)
Hex == CpList(Format(x)) = Ok(x)
Ranges == LET R == Runs(Increasing(Rng(x))) IN
          /\ UNION {R[k][1]..R[k][2] : k \in DOMAIN R} = Rng(x)
          /\ \A k \in 1..(Len(R) - 1) : R[k][2] + 1 < R[k + 1][1]
TextForm == ~HasSpace(x) /\ ~HasUPlus(x) => Plain(x, FALSE) = Ok(x)
Emit == (Par.emit /\ Foreign) => PrintT(<<"CASE", ToJson([x |-> x, a |-> AceText(x)])>>)
=============================================================================
