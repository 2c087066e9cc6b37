----------------------------- MODULE MC_Reading -----------------------------
(* Every document of up to Par.len elements out of a menu, read strictly and  *)
(* leniently.                                                                 *)
EXTENDS Reading, Json, IOUtils
VARIABLES els
Par == JsonDeserialize(IOEnv.PAR)
S0 == Empty(Rng(Par.inv), TRUE)
Init == els = <<>>
Next == /\ Len(els) < Par.len
        /\ \E k \in DOMAIN Par.menu : els' = Append(els, Par.menu[k])
Spec == Init /\ [][Next]_els
Doc == [meta |-> Par.meta, els |-> FlatSeq(els)]
\* what the strict reading accepts, the lenient one reads alike; what it leaves out is what spoils it
Sound ==
    LET a == Reading(S0, Doc, FALSE) b == Reading(S0, Doc, TRUE) IN
    /\ WellFormed(b.st) /\ b.why = {}
    /\ a.why = {} => a.st = b.st /\ b.left = 0
    /\ b.left > 0 => a.why # {}
Emit == PrintT(<<"CASE", ToJson(els)>>)
=============================================================================
