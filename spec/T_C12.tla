------------------------------- MODULE T_C12 --------------------------------
(* Verdicts and reports of the variant validators on recorded relations.      *)
EXTENDS Variants, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
Has(t, n) == n \in DOMAIN t
Fails(r) ==
    LET C == r.c.chars
        o == r.o
    IN IF o.exc # "" THEN {"raised"} ELSE Failing({
       <<"symmetry-verdict", o.sym.ok = StrictSym(C)>>,
       <<"symmetry-report", Rng(o.sym.rep) = SymIssues(C, TRUE)>>,
       <<"symmetry-report-repeats", NoDup(o.sym.rep)>>,
       <<"symmetry-basic-verdict", o.bsym.ok = BasicSym(C)>>,
       <<"symmetry-basic-report", Rng(o.bsym.rep) = SymIssues(C, FALSE) /\ NoDup(o.bsym.rep)>>,
       <<"transitivity-verdict", o.trans.ok = (TransIssues(C) = {} /\ AllIn(C))>>,
       <<"transitivity-report", Rng(o.trans.rep) = TransIssues(C)>>,
       <<"conditional-verdict", o.cond.ok = (CondIssues(C, Rng(r.c.rules)) = {})>>,
       <<"conditional-report", Rng(o.cond.rep) = CondIssues(C, Rng(r.c.rules)) /\ NoDup(o.cond.rep)>>,
       <<"recorded-outcomes",
            /\ o.rec.basic_symmetry = (IF BasicSym(C) THEN "pass" ELSE "fail")
            /\ (~StrictSym(C) /\ BasicSym(C)) => o.rec.strict_symmetry = "fail"
            /\ StrictSym(C) => o.rec.strict_symmetry = "pass"
            /\ TransIssues(C) # {} => o.rec.basic_transitivity = "fail"
            /\ (TransIssues(C) = {} /\ AllIn(C)) => o.rec.basic_transitivity = "pass">>,
       <<"changed", o.same>>,
       <<"answers-depend-on-history", o.again>>})
INSTANCE TraceRun
=============================================================================
