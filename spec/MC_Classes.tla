----------------------------- MODULE MC_Classes -----------------------------
(* All class expressions up to depth 2 over a few leaves, on a fixed small   *)
(* repertoire.  The set laws RFC 7940 section 6.2 relies on are checked on   *)
(* every expression, and each expression is printed for the real code.       *)
EXTENDS Rules, Json, IOUtils
VARIABLE e
Par == JsonDeserialize(IOEnv.PAR)                 \* [L, leaves, univ, right]
L == Par.L
U == Rng(Par.univ)
Leaves == Rng(Par.leaves)
RightLeaves == Rng(Par.right)
Bin == {"union", "inter", "diff", "symd"}
Comb(A, B) == {[t |-> op, kids |-> <<a, b>>] : op \in Bin, a \in A, b \in B}
Compl(A) == {[t |-> "compl", kids |-> <<a>>] : a \in A}
D1 == Comb(Leaves, Leaves) \cup Compl(Leaves)
D2 == Comb(D1, RightLeaves) \cup Comb(RightLeaves, D1) \cup Compl(D1)
Ext(c) == {x \in U : InClass(L, c, x)}
Init == e \in Leaves \cup D1 \cup D2
Next == UNCHANGED e
Spec == Init /\ [][Next]_e
Laws ==
    /\ e.t = "compl" => Ext(e) = U \ Ext(e.kids[1])
    /\ e.t = "union" => Ext(e) = Ext(e.kids[1]) \cup Ext(e.kids[2])
    /\ e.t = "inter" => Ext(e) = U \ (Ext([t |-> "union", kids |-> <<[t |-> "compl", kids |-> <<e.kids[1]>>],
                                                                     [t |-> "compl", kids |-> <<e.kids[2]>>]>>]))
    /\ e.t = "diff" => Ext(e) = Ext([t |-> "inter", kids |-> <<e.kids[1], [t |-> "compl", kids |-> <<e.kids[2]>>]>>])
    /\ e.t = "symd" => Ext(e) = (Ext(e.kids[1]) \cup Ext(e.kids[2])) \ (Ext(e.kids[1]) \cap Ext(e.kids[2]))
Emit == PrintT(<<"CASE", ToJson(e)>>)
=============================================================================
