------------------------------- MODULE T_C26 --------------------------------
EXTENDS Lgr, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
H == INSTANCE History WITH Kinds <- {}, Slots <- {}, MaxLen <- 0, st <- 0, env <- 0, gens <- <<>>, hist <- <<>>
Fails(r) ==
    LET o == r.o
        S == o.steps
        St(x) == x.st
        Env(x) == x.env
        St2(x) == x.st2
    IN IF o.exc # "" THEN {"raised"} ELSE Failing({
       <<"lgr-changed", H!Unchanged(o.st0, S, St)>>,
       <<"other-lgr-changed", H!Unchanged(o.st20, S, St2)>>,
       <<"environment-changed", H!Unchanged(o.env0, S, Env)>>,
       <<"answer-depends-on-history", H!Functional(S)>>,
       <<"answer-differs-on-fresh-lgr", H!Alike(S, o.fresh)>>,
       <<"answer-differs-on-copy", H!Alike(S, o.copy)>>,
       <<"copy-shares", o.shared = <<>>>>,
       <<"eligibility", \A k \in DOMAIN o.elig :
            LET e == Eligible(r.c.L, r.c.labels[o.elig[k].lab], o.elig[k].isv) IN
            o.elig[k].ok = e.ok /\ o.elig[k].disp = e.disp /\ o.elig[k].idx = e.idx>>})
INSTANCE TraceRun
=============================================================================
