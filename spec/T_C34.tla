------------------------------- MODULE T_C34 --------------------------------
(* Recorded sessions of commands over a folder of files: r.c.h the commands,   *)
(* r.o.files the files there were, r.o.res what each command did.              *)
EXTENDS Commands, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
RECURSIVE Walk(_, _, _)
Walk(r, k, fs) ==
    IF k > Len(r.c.h) THEN {}
    ELSE LET c == r.c.h[k] o == r.o.res[k]
             f == TLCEval(StepFails(c, fs, o))
         IN IF f # {} THEN {c.op \o ":" \o x : x \in f} ELSE Walk(r, k + 1, TLCEval(After(c, fs, o)))
Fails(r) == IF r.o.exc # "" THEN {"recording " \o r.o.exc}
            ELSE Walk(r, 1, [n \in {r.o.files[k].n : k \in DOMAIN r.o.files} |-> r.o.files[CHOOSE k \in DOMAIN r.o.files : r.o.files[k].n = n].f])
INSTANCE TraceRun
=============================================================================
