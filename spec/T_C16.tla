------------------------------- MODULE T_C16 --------------------------------
(* Harmonizing two LGRs, with or without a reference: entries before (case)    *)
(* and after (observation), relation against Harm / HarmRz.                    *)
EXTENDS Populate, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
Fails(r) ==
    IF r.o.exc # "" THEN {"raised"} ELSE
    LET a == TLCEval(Graph(r.c.chars[1]))
        b == TLCEval(Graph(r.c.chars[2]))
        z == TLCEval(Graph(r.c.chars[3]))
        wa == TLCEval(IF r.c.rz THEN HarmRz(a, b, z) ELSE Harm(a, b))
        wb == TLCEval(IF r.c.rz THEN HarmRz(b, a, z) ELSE Harm(b, a))
    IN Failing(Side(r.c.chars[1], r.o.a, wa, Pop(a)) \cup Side(r.c.chars[2], r.o.b, wb, Pop(b)) \cup {
        <<"agree", Agree(Graph(r.o.a), Graph(r.o.b))>>,
        <<"review", LET x == IF r.c.rz THEN Harm(a, z).n ELSE a.n
                        y == IF r.c.rz THEN Harm(b, z).n ELSE b.n
                    IN Rng(r.o.review[1]) = x \ y /\ Rng(r.o.review[2]) = y \ x>>,
        <<"inputs-changed", r.o.inputs>>,
        <<"shared", r.o.shared = <<>>>>,
        <<"rest-changed", r.o.rest>>,
        <<"version-comment-lost", r.o.comment>>,
        <<"again-adds", r.o.again = "">>})
INSTANCE TraceRun
=============================================================================
