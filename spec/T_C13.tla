------------------------------- MODULE T_C13 --------------------------------
(* Recorded union operations: inputs A and B, result O.                          *)
EXTENDS Compare, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
Fails(r) == IF r.o.exc # "" THEN {"raised " \o r.o.exc}
            ELSE UnionFails(r.o.A, r.o.B, r.o.O) \cup PeriodFails(r.o.num, r.o.onum) \cup TextFails(r.o.A, r.o.B, r.o.O) \cup OneSided(r.o.A, r.o.B, r.o.O)
                 \cup Failing({<<"input-modified", r.o.same>>, <<"result-unusable", r.o.works>>, <<"shared", r.o.shared = <<>>>>})
INSTANCE TraceRun
=============================================================================
