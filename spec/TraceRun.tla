------------------------------ MODULE TraceRun ------------------------------
(* Harness for validating recorded cases: the file named by the environment *)
(* variable CASES holds one JSON object per line (an input and what the real *)
(* code did with it).  Each line is one behaviour todo -> done; `Fails(c)`   *)
(* is the set of specification clauses the recorded behaviour violates.      *)
EXTENDS TLC, Naturals, Sequences, Json

CONSTANTS Fails(_), Cases
VARIABLES i, pc

Init == i \in 1..Len(Cases) /\ pc = "todo"
Next == /\ pc = "todo"
        /\ pc' = "done"
        /\ i' = i
        /\ LET f == TLCEval(Fails(Cases[i])) IN
           IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", i, ToJson(f)>>)
Spec == Init /\ [][Next]_<<i, pc>>
=============================================================================
