------------------------------- MODULE T_C05 --------------------------------
(* A recorded history: every step gives the current LGR content (tags, class *)
(* and rule definitions) and the answers obtained for rule applications.     *)
EXTENDS Lgr, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)

AskFails(L, q, o) ==
    IF o.exc # "" THEN {"raised"}
    ELSE IF q.anchor = <<>>
    THEN IF o.m = MatchesLabel(L, RuleNamed(L, q.rule).kids, q.lab) THEN {} ELSE {"whole-label-match"}
    ELSE IF o.m = MatchesContext(L, RuleNamed(L, q.rule).kids, q.lab, q.anchor, q.at) THEN {} ELSE {"context-match"}

StepFails(s, os, n) ==
    LET F == UNION {AskFails(s.L, s.asks[k], os[k]) : k \in DOMAIN s.asks}
    IN IF n = 1 THEN F ELSE {f \o "-after-edit" : f \in F}
Fails(r) == IF r.o.exc # "" THEN {"build"}
            ELSE UNION {StepFails(r.c.steps[k], r.o.steps[k], k) : k \in DOMAIN r.c.steps}
INSTANCE TraceRun
=============================================================================
