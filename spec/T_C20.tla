------------------------------- MODULE T_C20 --------------------------------
EXTENDS Conf, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
Bag(s) == [x \in Rng(s) |-> Cardinality({k \in DOMAIN s : s[k] = x})]
QueryFails(h, q, o) ==
    IF o.exc # "" THEN {"raised"}
    ELSE IF ~q.has THEN Failing({<<"verdict-without-policy", o.verdict = NoPolicy(h)>>, <<"report", o.reported = o.verdict>>})
    ELSE Failing({
        <<"verdict", o.verdict = Verdict(h, q.pol)>>,
        <<"report-verdict", o.reported = Verdict(h, q.pol)>>,
        <<"report-lines", Bag(o.lines) = Bag(Lines(h, q.pol))>>})
Fails(r) == IF r.o.exc # "" THEN {"recording"}
            ELSE UNION {QueryFails(Slice(r.c.h, 1, r.c.asks[k].at), r.c.asks[k], r.o.res[k]) : k \in DOMAIN r.c.asks}
INSTANCE TraceRun
=============================================================================
