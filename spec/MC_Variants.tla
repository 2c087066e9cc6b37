----------------------------- MODULE MC_Variants ----------------------------
(* Every variant relation over three entries, one of them a sequence, with    *)
(* every kind of mapping listed in KINDS between two of them, and every       *)
(* subset of the entries present in the repertoire.  Closure is checked to be *)
(* the least symmetric and transitive relation, and each relation is printed  *)
(* for the real code.                                                         *)
EXTENDS Variants, Json, IOUtils
VARIABLES here, g
Par == JsonDeserialize(IOEnv.PAR)                \* [nodes, kinds]
N == Rng(Par.nodes)
Kinds == Rng(Par.kinds)                          \* "none", "plain", "when", "nwhen", "both", "self..."
Off == {p \in N \X N : p[1] # p[2]}
Init == /\ here \in SUBSET N \ {{}}
        /\ g \in [Off -> Kinds]
        /\ \A p \in Off : p[1] \notin here => g[p] = "none"
Next == UNCHANGED <<here, g>>
Spec == Init /\ [][Next]_<<here, g>>
P == {p \in Off : g[p] # "none"}
Leaving(p) == {q \in P : q[1] = p}
Laws == LET C == Closure(P) IN
        /\ Sym(C) /\ Trans(C) /\ P \subseteq C /\ Closure(C) = C
        /\ \A Q \in SUBSET (Off \ P) : (Sym(P \cup Q) /\ Trans(P \cup Q)) => C \subseteq P \cup Q
Emit == PrintT(<<"CASE", ToJson([here |-> here, m |-> {<<p, g[p]>> : p \in P}])>>)
=============================================================================
