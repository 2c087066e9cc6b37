------------------------------- MODULE T_C28 --------------------------------
EXTENDS Lgr, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)

LabelFails(c, lab, o) ==
    IF o.exc # "" THEN {"raised"}
    ELSE Failing({
        <<"estimate", o.est = Estimate(c.L, lab)>>,
        <<"equals-generated", c.free => o.gen = Estimate(c.L, lab)>>})
Fails(r) == IF r.o.exc # "" THEN {"build"}
            ELSE UNION {LabelFails(r.c, r.c.labels[k], r.o.res[k]) : k \in DOMAIN r.c.labels}
INSTANCE TraceRun
=============================================================================
