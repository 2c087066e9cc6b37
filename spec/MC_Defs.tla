------------------------------ MODULE MC_Defs -------------------------------
(* Every history of up to Par.len additions from a menu of definitions, each  *)
(* forced or not.                                                             *)
EXTENDS Defs, Json, IOUtils
VARIABLES s, hist
Par == JsonDeserialize(IOEnv.PAR)                 \* [menu, len]
Menu == Par.menu
Fresh(d) == d.k = "action" \/ d.name = "" \/ d.name \notin (IF d.k = "class" THEN Names(s.cls) ELSE Names(s.rls))
Init == s = Start /\ hist = <<>>
Next == \E j \in DOMAIN Menu, force \in BOOLEAN :
           /\ Len(hist) < Par.len
           /\ Fresh(Menu[j])
           /\ s' = Add(s, Menu[j], force)
           /\ hist' = Append(hist, [d |-> Menu[j], force |-> force])
Spec == Init /\ [][Next]_<<s, hist>>
(* without force the state stays well formed: every definition only uses earlier ones *)
Unforced == \A k \in DOMAIN hist : ~hist[k].force
Sound == Unforced => /\ \A k \in DOMAIN s.cls : s.cls[k].name # "" /\ ~Dangling(s, s.cls[k]) /\ ~Short(s, s.cls[k])
                     /\ \A k \in DOMAIN s.rls : s.rls[k].name # "" /\ ~Dangling(s, s.rls[k]) /\ ~Short(s, s.rls[k])
Emit == Len(hist) = Par.len => PrintT(<<"CASE", ToJson(hist)>>)
=============================================================================
