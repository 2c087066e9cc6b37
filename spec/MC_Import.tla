----------------------------- MODULE MC_Import ------------------------------
(* Every file of a few lines taken from a list: what is read is well formed,   *)
(* and depends, for each code point, on its own lines and the references only. *)
(* Printed for the real parsers.                                               *)
EXTENDS Import, Json, IOUtils
VARIABLES ks
Par == JsonDeserialize(IOEnv.PAR)
Init == ks = <<>>
Next == Len(ks) < Par.size /\ \E k \in DOMAIN Par.lines : ks' = Append(ks, k)
Spec == Init /\ [][Next]_ks
File == Map(ks, LAMBDA k : Par.lines[k])
F(b) == [force |-> b]
WF == \A b \in BOOLEAN : WellFormed(Import(File, F(b)).st)
Leakless == \A b \in BOOLEAN : Local(File, F(b))
Emit == (Par.emit /\ Len(ks) = Par.size) => PrintT(<<"CASE", ToJson([ks |-> ks])>>)
=============================================================================
