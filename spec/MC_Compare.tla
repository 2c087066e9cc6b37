----------------------------- MODULE MC_Compare -----------------------------
(* Every pair of small LGRs over one shared code point: it may be absent, and  *)
(* otherwise has or not a tag, a context rule, a variant with or without the   *)
(* context rule; the rule has one of two definitions (through a class or not); *)
(* an action may use it.  Printed for the real union, intersection and report. *)
EXTENDS Base, Json
VARIABLES a, b
Sides == [here : BOOLEAN, tag : BOOLEAN, ctx : {"", "when", "nwhen"}, var : {"", "plain", "when"}, rule : {"", "r1", "r2"}, act : BOOLEAN]
Valid(s) == /\ (s.ctx # "" \/ s.var = "when" \/ s.act) => s.rule # ""
            /\ ~s.here => s.tag = FALSE /\ s.ctx = "" /\ s.var = ""
\* symmetric exploration would double the work for nothing: both orders are replayed from one state
Init == a \in {s \in Sides : Valid(s)} /\ b \in {s \in Sides : Valid(s)}
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
\* the algebra the three operations must satisfy on what they contain, on code points
CP(s) == IF s.here THEN {"a"} ELSE {}
Algebra == /\ (CP(a) \cup CP(b)) \ (CP(a) \cap CP(b)) = (CP(a) \ CP(b)) \cup (CP(b) \ CP(a))
Emit == PrintT(<<"CASE", ToJson([a |-> a, b |-> b])>>)
=============================================================================
