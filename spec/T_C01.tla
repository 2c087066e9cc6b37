------------------------------- MODULE T_C01 --------------------------------
(* Recorded eligibility tests: r.c.L the LGR, r.c.labels the labels, r.o.res *)
(* what the code answered, in three forms of the question.                   *)
EXTENDS Lgr, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)

LabelFails(L, lab, o) ==
    IF o.exc # "" THEN {"raised"}
    ELSE LET p == TLCEval(Prelim(L, lab)) IN
      Failing({
        <<"verdict", o.ok = (p.inv = <<>>)>>,
        <<"parts", p.inv = <<>> => o.parts = lab>>,
        <<"parts-covered", p.inv # <<>> => o.parts = p.parts>>,
        <<"invalid-parts", [k \in DOMAIN o.inv |-> o.inv[k].cp] = [k \in DOMAIN p.inv |-> p.inv[k].cp]>>,
        <<"invalid-rules", Len(o.inv) = Len(p.inv) =>
             \A k \in DOMAIN o.inv : Rng(o.inv[k].rules) = Rng(p.inv[k].rules)
                                  /\ Len(o.inv[k].rules) = Len(p.inv[k].rules)>>,
        <<"entries", o.chars = [k \in DOMAIN p.chars |-> L.chars[p.chars[k]].cp]>>,
        <<"forms-agree", o.same>>,
        <<"out-disposition", p.inv # <<>> => o.disp = "invalid" /\ o.idx = -1>>})

Fails(r) == IF r.o.exc # "" THEN {"build"}
            ELSE UNION {LabelFails(r.c.L, r.c.labels[k], r.o.res[k]) : k \in DOMAIN r.c.labels}
INSTANCE TraceRun
=============================================================================
