------------------------------- MODULE T_C02 --------------------------------
EXTENDS Lgr, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)

\* e: specification verdict for one (label, is-variant) question, o: observed
EFails(e, o) ==
    IF o.exc # "" THEN {"raised"}
    ELSE Failing({
        <<"eligible", o.ok = e.ok>>,
        <<"disposition", o.disp = e.disp>>,
        <<"action-index", o.idx = e.idx>>,
        <<"parts", o.parts = e.parts>>,
        <<"invalid-parts", [k \in DOMAIN o.inv |-> o.inv[k].cp] = [k \in DOMAIN e.inv |-> e.inv[k].cp]>>,
        <<"repeat", o.same>>})

LabelFails(L, lab, o) == EFails(TLCEval(Eligible(L, lab, FALSE)), o.orig)
                         \cup EFails(TLCEval(Eligible(L, lab, TRUE)), o.var)
Fails(r) == IF r.o.exc # "" THEN {"build"}
            ELSE UNION {LabelFails(r.c.L, r.c.labels[k], r.o.res[k]) : k \in DOMAIN r.c.labels}
                 \cup (IF r.o.nacts = Len(r.c.L.actions) + Len(DefaultActions) THEN {} ELSE {"action-list"})
INSTANCE TraceRun
=============================================================================
