------------------------------- MODULE T_C04 --------------------------------
EXTENDS Lgr, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)

LabelFails(L, lab, o) ==
    IF lab = <<>> THEN IF o.exc = "" /\ o.idx = <<>> THEN {} ELSE {"empty-label"}
    ELSE IF ~InRepertoire(L, lab)
    THEN IF o.exc = "NotInLGR" THEN {} ELSE {"out-of-repertoire"}
    ELSE IF o.exc # "" THEN {"raised"}
    ELSE LET x == TLCEval(IndexLabel(L, lab)) IN
         Failing({<<"index", o.idx = x>>,
                  \* iterating: the code goes on from its own index label while it is still in the repertoire
                  <<"iterated", o.idx2 = IF x # lab /\ InRepertoire(L, x) THEN IndexLabel(L, x) ELSE x>>})

\* labels sharing an index label <=> variants of each other, where the statement promises it
GroupFails(r) ==
    LET o == r.o.res
        lab(k) == r.c.labels[k]
        ok == {k \in DOMAIN o : o[k].exc = "" /\ lab(k) # <<>>}
    IN IF ~r.c.closed THEN {}
       ELSE IF \A a, b \in ok : (o[a].idx = o[b].idx) <=> (lab(b) \in Rng(o[a].vars))
            THEN {} ELSE {"index-equivalence"}

Fails(r) == IF r.o.exc # "" THEN {"build"}
            ELSE UNION {LabelFails(r.c.L, r.c.labels[k], r.o.res[k]) : k \in DOMAIN r.c.labels} \cup GroupFails(r)
INSTANCE TraceRun
=============================================================================
