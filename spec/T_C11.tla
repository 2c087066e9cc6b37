------------------------------- MODULE T_C11 --------------------------------
(* populate: C is the repertoire before (entries with variants), D after,     *)
(* E after populating a second time.                                          *)
EXTENDS Populate, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
Fails(r) ==
    IF r.o.exc # "" THEN {"raised"} ELSE
    LET C == r.c.chars
        D == r.o.after
        P == TLCEval(Closure(Pairs(C)))
    IN Failing({
        <<"entries", Nodes(D) = Wanted(C) /\ NoDup(D)>>,
        <<"entries-kept", \A k \in DOMAIN C : \E j \in DOMAIN D : Bare(D[j]) = Kept(P, C[k])>>,
        <<"entries-added", \A j \in DOMAIN D : D[j].cp \notin Nodes(C) => Plain(D[j])>>,
        <<"relation", Pairs(D) = P>>,
        <<"mappings-kept", \A m \in Mappings(C) : Survives(C, D, m[1], m[2])>>,
        <<"mappings-added", \A m \in Mappings(D) : IsOld(C, m[1], m[2]) \/ AddedOk(D, m[1], m[2])>>,
        <<"mappings-needed", \A m \in Mappings(D) : IsOld(C, m[1], m[2]) \/ Needed(C, D, m[1], m[2])>>,
        <<"mappings-unique", Unique(D)>>,
        <<"rules-mirrored", RuleMirrored(D)>>,
        <<"rest-changed", r.o.same>>,
        <<"second-populate", r.o.second = D>>,
        <<"checkers-disagree", r.o.checks>>})
INSTANCE TraceRun
=============================================================================
