----------------------------- MODULE MC_Validate ----------------------------
(* Every one-entry LGR of a few shapes (valid or not, sequence, range, context *)
(* rules, one variant) under every combination of the checks.                  *)
EXTENDS Validate, Json
VARIABLES c, o
E(cp, rng, both, vars) == [cp |-> cp, rng |-> rng, when |-> IF both THEN "r1" ELSE "", nwhen |-> IF both THEN "n1" ELSE "",
                           tags |-> <<>>, refs |-> <<>>, com |-> "", vars |-> vars]
V(cp, both) == [cp |-> cp, when |-> IF both THEN "r1" ELSE "", nwhen |-> IF both THEN "n1" ELSE "", type |-> "", refs |-> <<>>, com |-> ""]
Cp == {<<97>>, <<95>>, <<97, 95>>, <<945, 97>>, <<945>>}
Entries == {E(<<95>>, <<95, 98>>, b, <<>>) : b \in BOOLEAN} \cup {E(<<97>>, <<97, 98>>, b, <<>>) : b \in BOOLEAN}
           \cup {E(cp, <<>>, b, <<>>) : cp \in Cp, b \in BOOLEAN}
           \cup {E(cp, <<>>, b, <<V(v, vb)>>) : cp \in Cp, b \in BOOLEAN, v \in Cp, vb \in BOOLEAN}
Scr == <<<<95, "Zyyy">>, <<96, "Zyyy">>, <<97, "Latn">>, <<98, "Latn">>, <<945, "Grek">>>>
Opts == {[inv |-> <<95, 96>>, strict |-> s, hasval |-> v # "none", val |-> IF v = "a" THEN <<97>> ELSE IF v = "all" THEN <<95, 96, 97, 98, 945>> ELSE <<>>,
          scripts |-> x, scr |-> Scr] : s \in BOOLEAN, v \in {"none", "a", "all", "empty"}, x \in {<<>>, <<"Latn">>}}
Init == c \in Entries /\ o \in Opts
Next == UNCHANGED <<c, o>>
Spec == Init /\ [][Next]_<<c, o>>
Bad(opt) == BadEntries(<<>>, opt, <<c>>) # {}
(* fewer checks never report more *)
Monotone == /\ Bad([o EXCEPT !.strict = FALSE]) => Bad([o EXCEPT !.strict = TRUE])
            /\ Bad([o EXCEPT !.hasval = FALSE]) => Bad(o)
            /\ Bad([o EXCEPT !.scripts = <<>>]) => Bad(o)
(* with no check on, only what is wrong in itself is reported *)
Quiet == (~o.strict /\ ~o.hasval /\ o.scripts = <<>>) =>
            (Bad(o) <=> c.when # "" \/ \E k \in DOMAIN c.vars : c.vars[k].when # "")
Emit == PrintT(<<"CASE", ToJson([c |-> c, o |-> o])>>)
=============================================================================
