------------------------------- MODULE T_C17 --------------------------------
(* Recorded merges of LGR sets.                                                  *)
EXTENDS Merge, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
Dom(M) == UNION {DOMAIN x : x \in {CharMap(M[k]) : k \in DOMAIN M}}
Fails(r) ==
    LET o == r.o IN
    IF Impossible(Maps(o.M), Dom(o.M))
    THEN Failing({<<"merged-conflicting-rules", o.exc = "CharInvalidContextRule">>, <<"input-modified", o.same>>})
    ELSE IF o.exc # "" THEN {"raised " \o o.exc}
    ELSE MergeFails(o.M, o.S, o.num, o.scx, o.O, o.onum, o.today)
         \cup Failing({<<"input-modified", o.same>>, <<"result-unusable", o.works>>, <<"shared", o.shared = <<>>>>, <<"name", o.name>>})
INSTANCE TraceRun
=============================================================================
