------------------------------- MODULE T_C10 --------------------------------
(* Recorded round trips: document -> LGR (p1) -> document (x) -> LGR (p2).   *)
EXTENDS Doc, Lgr, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)

LabelFails(L, lab, o) == LET e == TLCEval(Eligible(L, lab, FALSE)) IN
    IF o.exc = "" /\ o.ok = e.ok /\ o.disp = e.disp /\ o.idx = e.idx THEN {} ELSE {"verdict"}

Fails(r) ==
    LET D == r.c.D
        o == r.o
    IN IF o.exc # "" THEN {"raised"} ELSE
       {"parse:" \o f : f \in ReadFails(D, o.p1)} \cup {"reparse:" \o f : f \in ReadFails(D, o.p2)}
       \cup WriteFails(D, o.x)
       \cup {"parse:" \o f : f \in UNION {LabelFails(r.c.L, r.c.labels[k], o.v1[k]) : k \in DOMAIN r.c.labels}}
       \cup {"reparse:" \o f : f \in UNION {LabelFails(r.c.L, r.c.labels[k], o.v2[k]) : k \in DOMAIN r.c.labels}}
       \cup Failing({
         <<"unicode-version-query", o.uver = MetaOf(D).uver>>,
         <<"second-writing-differs", o.stable>>,
         <<"reading-differs", o.p1 = o.p2>>,
         <<"writing-changes-lgr", o.p1 = o.p1b>>,
         <<"pretty-printing-differs", o.pretty = o.p2>>})
INSTANCE TraceRun
=============================================================================
