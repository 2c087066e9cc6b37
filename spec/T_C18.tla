------------------------------- MODULE T_C18 --------------------------------
(* Recorded collision checks.                                                    *)
EXTENDS Collide, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
Fails(r) ==
    LET X == Rng(r.c.labels) T == Rng(r.c.tlds) L == r.c.L[1] o == r.o IN
    (CASE r.c.op = "diff" -> DiffFails(L, r.c.L[2], X, r.c.collisions, r.c.dump, o)
       [] r.c.op = "full" -> FullFails(L, X, T, r.c.dump, r.c.quiet, o)
       [] o.exc # "" -> {"raised " \o o.exc}
       [] r.c.op = "table" -> TableFails(L, X, r.c.quiet, o.table)
       [] r.c.op = "short" -> ShortFails(L, X, T, o)
       [] OTHER -> ToolFails(L, r.c.tlds, r.c.labels, o.answers))
    \cup (IF o.exc = "" /\ r.c.op \in {"short", "full", "diff"} THEN Failing({<<"label-errors", o.errors = r.c.nbad>>}) ELSE {})
    \cup (IF o.exc = "" /\ r.c.op \in {"full", "diff"} THEN Failing({<<"command-leaves-out", o.cli.missing = <<>>>>, <<"command-adds", o.cli.extra = <<>>>>}) ELSE {})
    \cup Failing({<<"changed", o.same>>})
INSTANCE TraceRun
=============================================================================
