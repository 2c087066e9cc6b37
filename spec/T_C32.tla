------------------------------- MODULE T_C32 --------------------------------
(* Recorded histories of definitions: added one by one, or read from a        *)
(* document, then every rule and class evaluated.                             *)
EXTENDS Defs, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
NamesOf(s) == [j \in DOMAIN s |-> s[j].name]
RECURSIVE At(_, _)
At(steps, k) == IF k = 0 THEN Start ELSE Add(At(steps, k - 1), steps[k].d, steps[k].force)
StepFails(S, st, o) ==
    LET ok == Accepted(S, st.d, st.force)
        T == Add(S, st.d, st.force)
    IN Failing({
        <<"refused", ok => o.exc = "">>,
        <<"accepted", ~ok => o.exc # "">>,
        <<"reason", (~ok /\ o.exc # "") => o.exc \in Reasons(S, st.d)>>,
        <<"refusal-changed", o.exc # "" => o.same>>,
        <<"classes", o.cls = NamesOf(T.cls)>>,
        <<"rules", o.rls = NamesOf(T.rls)>>,
        <<"actions", o.acts = T.acts>>})
EvalFails(S, evals) == UNION {
    LET e == evals[j]
        d == Def(IF e.k = "class" THEN S.cls ELSE S.rls, e.name)
    IN IF Short(S, d) THEN {}
       ELSE Failing({<<"undefined-evaluated", Dangling(S, d) => e.exc # "">>,
                     <<"rule-error", Dangling(S, d) => e.exc \in {"", "RuleError"}>>,
                     <<"evaluation-failed", ~Dangling(S, d) => e.exc = "">>}) : j \in DOMAIN evals}
Fails(r) ==
    IF r.c.mode = "api"
    THEN IF r.o.exc # "" THEN {"raised"}
         ELSE UNION {LET S == TLCEval(At(r.c.steps, k - 1)) IN
                     StepFails(S, r.c.steps[k], r.o.steps[k])
                     \cup EvalFails(Add(S, r.c.steps[k].d, r.c.steps[k].force), r.o.steps[k].evals) : k \in DOMAIN r.c.steps}
    ELSE LET want == Read(Start, [k \in DOMAIN r.c.steps |-> r.c.steps[k].d], r.c.force) IN
         IF r.o.exc # ""
         THEN Failing({<<"document-refused", ~want.ok>>, <<"document-reason", r.o.exc \in want.why \/ want.ok>>})
         ELSE Failing({<<"document-accepted", want.ok>>,
                       <<"document-classes", want.ok => r.o.cls = NamesOf(want.s.cls)>>,
                       <<"document-rules", want.ok => r.o.rls = NamesOf(want.s.rls)>>,
                       <<"document-actions", want.ok => r.o.acts = want.s.acts>>})
              \cup (IF want.ok THEN EvalFails(want.s, r.o.evals) ELSE {})
INSTANCE TraceRun
=============================================================================
