------------------------------- MODULE T_C24 --------------------------------
(* Recorded reviews of a table (a) against a reference (b), or alone.         *)
EXTENDS Review, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
Fails(r) ==
    LET c == r.c o == r.o A == c.a B == c.b IN
    IF o.exc # "" THEN {"raised " \o o.exc}
    ELSE Failing({<<"headers", o.header = c.header>>, <<"input-modified", o.same>>})
         \cup RepertoireFails(A, B, o.full, Rng(c.sc))
         \cup (IF c.closed THEN VariantFails(A, B, o.full) ELSE {})
         \cup ClassFails(A, B, o.full) \cup WleFails(A, B, o.full, Rng(c.alpha)) \cup ActionFails(A, B, o.full)
         \cup TagFails(c.la, c.lb, o.full)
         \cup UNION {SummaryFails(n, Rows(o.full)[n], o.full.summary[n]) : n \in DOMAIN o.full.summary}
         \cup (IF c.self THEN SelfFails(o.full) ELSE {})
         \cup GeneralFails(A, o.keys, o.u, o.full.general, o.labels)
         \cup CoreFails(A, o.corekeys, o.u, o.core, o.corelabels)
INSTANCE TraceRun
=============================================================================
