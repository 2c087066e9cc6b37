------------------------------- MODULE T_C30 --------------------------------
(* Recorded reports of the label tools.                                          *)
EXTENDS Report, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)

NoNotes(lab) == {""}
Fails(r) ==
    LET c == r.c o == r.o L == c.L[1]
        M == IF c.op \in {"one"} THEN L ELSE IF o.merged # <<>> THEN [L EXCEPT !.chars = o.merged] ELSE IF Len(c.L) > 1 THEN c.L[2] ELSE L
        K == IF c.set THEN Kept(M, c.slines) ELSE {}
        SN(lab) == SetNotes(M, K, lab)
    IN IF o.exc # "" THEN {"raised " \o o.exc}
       ELSE CASE c.op = "idna" -> IdnaFails(c.chars, o.props, o)
              [] c.op = "annotate" -> (IF c.set THEN RefusedFails(M, c.slines, o.refused) \cup ReportFails(L, c.comments, c.lines, o.blocks, SN)
                                       ELSE Failing({<<"no-set", o.refused = <<>>>>}) \cup ReportFails(L, c.comments, c.lines, o.blocks, NoNotes))
              [] c.op = "validate" -> (IF c.set THEN RefusedFails(M, c.slines, o.refused) ELSE {}) \cup
                                      (IF Len(o.blocks) # Len(c.labels) THEN {"labels"}
                                       ELSE UNION {ValidateFails(L, M, c.set /\ K # {}, K, c.gen, c.labels[k], o.blocks[k]) : k \in DOMAIN c.labels})
              [] OTHER -> IF Len(o.blocks) # Len(c.labels) THEN {"labels"}
                          ELSE UNION {ExerciseFails(L, c.gen, c.labels[k], o.blocks[k]) : k \in DOMAIN c.labels}
INSTANCE TraceRun
=============================================================================
