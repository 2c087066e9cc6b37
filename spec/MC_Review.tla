----------------------------- MODULE MC_Review ------------------------------
(* Small tables and references: what is said of one code point, of one pair  *)
(* of variants, and of how the variant sets of both overlap.                 *)
EXTENDS Review, Json, IOUtils
VARIABLES part, a, b

Tags2 == SUBSET {"t", "u"}
Ctx == {<<"", "">>, <<"r", "">>, <<"", "r">>, <<"s", "">>}
CpSide == {[here |-> FALSE, tags |-> {}, ctx |-> <<"", "">>]} \cup [here : {TRUE}, tags : Tags2, ctx : Ctx]
VarTypes == {"absent", "", "activated", "blocked", "x"}
VarSide == [Kinds -> VarTypes]
\* the set to which each of four code points belongs; 0: not in the repertoire, -1: alone
SetSide == {f \in [1..4 -> -1..2] : \A k \in {1, 2} : Cardinality({c \in 1..4 : f[c] = k}) # 1 /\ (k = 2 /\ 2 \in Rng(f) => 1 \in Rng(f))}

Init == \/ part = "cp" /\ a \in CpSide /\ b \in CpSide /\ (a.here \/ b.here)
        \/ part = "var" /\ a \in VarSide /\ b \in VarSide
        \/ part = "set" /\ a \in SetSide /\ b \in SetSide
Next == UNCHANGED <<part, a, b>>
Spec == Init /\ [][Next]_<<part, a, b>>

E1(s) == [cp |-> <<97>>, tags |-> IF s.here THEN (CHOOSE q \in [1..Cardinality(s.tags) -> s.tags] : Rng(q) = s.tags) ELSE <<>>, when |-> s.ctx[1], nwhen |-> s.ctx[2]]
Vs(f) == LET one(k) == IF f[k] = "absent" THEN <<>> ELSE <<[cp |-> <<98>>, type |-> f[k], when |-> IF k = "when" THEN "r" ELSE "", nwhen |-> IF k = "not-when" THEN "r" ELSE ""]>>
         IN one("when") \o one("not-when") \o one("none")
\* every situation has an outcome; nothing differs from itself; a difference is never a match
Decided ==
    /\ part = "cp" /\ a.here /\ b.here =>
        LET t == TagResult(E1(a), E1(b), {}) r == RuleResult(E1(a), E1(b)) IN
        CpRemarks(t, r) # {} /\ ((Worst({t, r}) = "MATCH") <=> (a = b))
    /\ part = "var" => Compared(Vs(a), Vs(b)) # {}
    /\ part = "var" /\ a = b => Compared(Vs(a), Vs(b)) = {<<"MATCH", "Exact match (including type, conditional variant rule)">>}
\* where the same kinds of variants exist on both sides, only equal types and conditions match
Sound == part = "var" /\ (\A k \in Kinds : (a[k] = "absent") = (b[k] = "absent")) /\ a # b =>
    \A q \in Compared(Vs(a), Vs(b)) : q[1] # "MATCH" \/ TypeCheck(Vs(a), Vs(b)) = {"less", "more", "same", "unknown"}
Emit == PrintT(<<"CASE", ToJson([part |-> part, a |-> a, b |-> b])>>)
=============================================================================
