------------------------------ MODULE MC_Edits ------------------------------
(* Bounded-exhaustive exploration of the editing machine over the alphabet   *)
(* of calls given in the environment (OPS: JSON list, DEPTH: longest         *)
(* history).  Checks that every reachable state is well formed and prints,   *)
(* for every distinct state, one history leading to it (the history is       *)
(* hidden from the state by VIEW); the driver replays each and then tries    *)
(* every call of the alphabet from there.                                    *)
EXTENDS Edits, Json, IOUtils
VARIABLES st, path
Ops == JsonDeserialize(IOEnv.OPS)
Par == JsonDeserialize(IOEnv.PAR)
Auto(s) == CHOOSE d \in {"0", "1", "2", "3", "4"} : d \notin RefIds(s)
           /\ \A e \in {"0", "1", "2", "3", "4"} : e \notin RefIds(s) => TRUE
Init == st = Empty(Rng(Par.inv), Par.strict) /\ path = <<>>
Next == /\ Len(path) < Par.depth
        /\ \E k \in DOMAIN Ops :
             /\ Errs(st, Ops[k]) = {}
             /\ st' = After(st, Ops[k], IF Ops[k].id = "" THEN Auto(st) ELSE Ops[k].id)
             /\ path' = Append(path, k)
Spec == Init /\ [][Next]_<<st, path>>
View == st
WF == WellFormed(st)
Emit == PrintT(<<"CASE", ToJson(path)>>)
\* a refused call changes nothing; an accepted one touches only what it names
Local == [][\A k \in DOMAIN Ops : path' = Append(path, k) =>
              LET op == Ops[k] IN
              /\ op.op \in {"add_ref", "del_ref", "upd_ref"} => DOMAIN st'.E = DOMAIN st.E
              /\ op.op \notin {"add_ref", "del_ref", "upd_ref"} => st'.R = st.R
              /\ op.op \in {"expand_range", "expand_ranges", "add_variant", "del_variant", "del_tag"} => DOMAIN st'.E = DOMAIN st.E
              /\ op.op = "del_tag" => op.id \notin UsedTags(st')
              /\ op.op = "add_cp" => DOMAIN st'.E = DOMAIN st.E \cup {op.cp}
              /\ op.op = "del_cp" => DOMAIN st'.E = DOMAIN st.E \ {op.cp}]_<<st, path>>
=============================================================================
