---------------------------- MODULE MC_Registry ----------------------------
(* Every registry of at most N records over few code points, built record by  *)
(* record in order, for versions around the one where the registry's name     *)
(* changes; the records may be in the registry that counts or in another.     *)
EXTENDS Registry, Json, IOUtils
VARIABLES rs, v
N == IF IOEnv.N = "3" THEN 3 ELSE 2
Cps == 97..100
Props == {"PVALID", "CONTEXTJ", "CONTEXTO", "DISALLOWED", "UNASSIGNED"}
Versions == {<<5, 2, 0>>, <<6, 0, 0>>, <<6, 0, 1>>, <<6, 3, 0>>, <<10, 0, 0>>}
Ids(w) == {Id(w), "idna-tables-context"} \cup {Id(<<6, 0, 0>>), Id(<<6, 3, 0>>)}
Init == rs = <<>> /\ v \in Versions
Next == /\ Len(rs) < N /\ UNCHANGED v
        /\ \E a, b \in Cps, p \in Props, g \in Ids(v) :
             /\ a <= b
             /\ \A x \in Rng(rs) : b < x.first \/ x.last < a
             /\ rs' = Append(rs, [first |-> a, last |-> b, prop |-> p, id |-> g])
Spec == Init /\ [][Next]_<<rs, v>>
Names == Rng(Map(rs, LAMBDA x : x.id))
Table == LET ids == CHOOSE s \in [1..Cardinality(Names) -> Names] : Rng(s) = Names IN Map(ids, LAMBDA n : [id |-> n, records |-> Filter(rs, LAMBDA x : x.id = n)])
(* the model's own laws: nothing forbidden is kept, each code point once *)
Sound == /\ \A c \in Members(Kept(Table, v)) : \E x \in Rng(rs) : c \in x.first..x.last /\ x.prop \in Permitted /\ x.id = Id(v)
         /\ \A x \in Rng(rs) : (x.prop \in Permitted /\ x.id = Id(v)) => (x.first..x.last) \subseteq Members(Kept(Table, v))
OneName == Id(v) = "idna-tables-properties" <=> ~Upto600(v)
Emit == PrintT(<<"CASE", ToJson([rs |-> rs, v |-> v])>>)
=============================================================================
