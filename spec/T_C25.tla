------------------------------- MODULE T_C25 --------------------------------
(* Recorded variant generation over several scripts, with and without the     *)
(* mixed-script variants (o.full / o.hidden: one row per derivation; o.plain: *)
(* one row per label).                                                        *)
EXTENDS Scripts, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)

D4(x) == [cp |-> x.cp, disp |-> x.disp, idx |-> x.idx, types |-> Rng(x.types)]
Init4(rows) == {D4(rows[k]) : k \in 1..(Len(rows) - 1)}
All4(rows) == {D4(rows[k]) : k \in DOMAIN rows}
Cps(rows) == [k \in DOMAIN rows |-> rows[k].cp]
D4s(D) == {[cp |-> d.cp, disp |-> d.disp, idx |-> d.idx, types |-> d.types] : d \in D}

LabelFails(L, S, lab, o) ==
    IF o.exc # "" THEN {"raised"}
    ELSE LET D == TLCEval(D4s(Derivations(L, lab)))
             V == {d \in D : d.cp # lab}
             must == {d \in V : Stays(L, S, lab, d.cp)}
             may == {d \in V : MayStay(S, lab, d.cp)}
             shown == {d \in Init4(o.hidden) : d.cp # lab}
             valid == {d \in must : d.disp # "invalid"}
         IN Failing({
           <<"kept", must \subseteq shown>>,
           <<"of-the-full-set", shown \subseteq V>>,
           <<"not-mixed", (shown \cap V) \subseteq may>>,
           <<"original-last", o.hidden # <<>> /\ o.hidden[Len(o.hidden)].cp = lab>>,
           <<"own-same", \A d \in D : (d.cp = lab /\ d \in All4(o.full)) => d \in All4(o.hidden)>>,
           <<"plain", Rng(Cps(o.plain)) = Rng(Cps(o.hidden)) /\ NoDup(Cps(o.plain))>>,
           <<"plain-disp", \A k \in DOMAIN o.plain : LET x == D4(o.plain[k]) IN
                              x \in All4(o.hidden) \/ (k = Len(o.plain) /\ x \in D)>>,
           <<"valid", {d.cp : d \in {e \in must : \A f \in D : f.cp = e.cp => f.disp # "invalid"}} \subseteq Rng(Cps(o.valid))>>,
           <<"valid-only", \A k \in 1..(Len(o.valid) - 1) : o.valid[k].disp # "invalid" /\ D4(o.valid[k]) \in may>>,
           <<"summary", o.sumok>>,
           <<"predicted", Predicted(L, S, lab, FALSE) <= o.est /\ o.est <= Predicted(L, S, lab, TRUE)>>})

Fails(r) == IF r.o.exc # "" THEN {"build"}
            ELSE UNION {LabelFails(r.c.L, r.c.scripts, r.c.labels[k], r.o.res[k]) : k \in DOMAIN r.c.labels}
INSTANCE TraceRun
=============================================================================
