------------------------------- MODULE T_C06 --------------------------------
(* Recorded histories of class evaluations: every step gives the LGR content *)
(* at that point and the answers of the real classes, asked as sets and as   *)
(* patterns.                                                                 *)
EXTENDS Lgr, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)

AskFails(L, q, o) ==
    IF o.exc # "" THEN {"raised"}
    ELSE Failing({
      <<"set-membership", \A k \in DOMAIN q.probes : o.mem[k] = InClass(L, q.cls, q.probes[k])>>,
      <<"pattern-membership", \A k \in DOMAIN o.pat : o.pat[k] = InClass(L, q.cls, q.probes[k])>>,
      <<"members", q.closed => \A k \in DOMAIN o.members : InClass(L, q.cls, o.members[k])>>,
      <<"unchanged", o.same>>})
Fails(r) == IF r.o.exc # "" THEN {"build"}
            ELSE UNION {UNION {AskFails(r.c.steps[k].L, r.c.steps[k].asks[j], r.o.steps[k][j]) :
                           j \in DOMAIN r.c.steps[k].asks} : k \in DOMAIN r.c.steps}
INSTANCE TraceRun
=============================================================================
