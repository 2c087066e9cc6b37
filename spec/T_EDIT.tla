------------------------------- MODULE T_EDIT -------------------------------
(* Recorded editing histories: each case is a tree of calls on the real LGR  *)
(* (step k was made after step parent), each with what it returned and the   *)
(* complete projection of the LGR after it.                                  *)
EXTENDS EditsObs, Json, IOUtils
VARIABLES i, l, st
Cases == ndJsonDeserialize(IOEnv.CASES)

StepFails(s, op, o, s2) ==
    LET e == TLCEval(Errs(s, op)) IN
    Failing({<<"outcome-" \o op.op, IF e = {} THEN o.exc = "" ELSE o.exc \in e>>,
             <<"result-" \o op.op, (e = {} /\ o.exc = "") => RetOk(s, op, o)>>,
             \* a deleted tag leaves no class behind
             <<"tag-removed", op.op = "del_tag" => op.id \notin Rng(o.alltags)>>})
    \cup ObsFails(s2, o)

Init == /\ i \in 1..Len(Cases)
        /\ l = 0
        /\ st = Empty(Rng(Cases[i].c.inv), Cases[i].c.strict)
Next == /\ \E k \in DOMAIN Cases[i].c.ops :
             /\ Cases[i].c.ops[k].parent = l
             /\ l' = k
             /\ LET op == Cases[i].c.ops[k]
                    o == Cases[i].o.steps[k]
                    s2 == TLCEval(After(st, op, o.ret))
                    f == TLCEval(StepFails(st, op, o, s2))
                IN /\ st' = s2
                   /\ IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", i, ToJson(f)>>)
        /\ i' = i
Spec == Init /\ [][Next]_<<i, l, st>>
WF == WellFormed(st)
=============================================================================
