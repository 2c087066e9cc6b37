------------------------------- MODULE T_C35 --------------------------------
(* Recorded runs of the tool that makes the IDNA repertoire of a registry.    *)
EXTENDS Registry, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
Fails(r) == IF r.o.exc # "" THEN {"raised " \o r.o.exc}
            ELSE MadeFails(r.c.table, r.c.version, r.o) \cup UseFails(r.c.table, r.c.version, r.o)
INSTANCE TraceRun
=============================================================================
