---------------------------- MODULE MC_Harmonize ----------------------------
(* Every pair of variant relations over the given entries (populated ones      *)
(* only, if so asked), with or without a third, reference relation.  The laws  *)
(* hold for the specified result; each choice is printed for the real code.    *)
EXTENDS Populate, Json, IOUtils
VARIABLES g, h, r
Par == JsonDeserialize(IOEnv.PAR)                \* [nodes, populated, rz, emit]
N == Rng(Par.nodes)
Graphs == {x \in UNION {[n : {S}, p : SUBSET {q \in S \X N : q[1] # q[2]}] : S \in SUBSET N} :
              Par.populated => (Sym(x.p) /\ Trans(x.p))}
Init == /\ g \in Graphs /\ h \in Graphs
        /\ r \in IF Par.rz THEN Graphs ELSE {[n |-> {}, p |-> {}]}
Next == UNCHANGED <<g, h, r>>
Spec == Init /\ [][Next]_<<g, h, r>>
A == IF Par.rz THEN HarmRz(g, h, r) ELSE Harm(g, h)
B == IF Par.rz THEN HarmRz(h, g, r) ELSE Harm(h, g)
Laws == LET a == A
            b == B
            again == IF Par.rz THEN HarmRz(a, b, r) ELSE Harm(a, b)
            all == Closure(g.p \cup h.p \cup r.p)
        IN /\ g.n \subseteq a.n /\ g.p \subseteq a.p /\ h.n \subseteq b.n /\ h.p \subseteq b.p
           /\ Sym(a.p) /\ Trans(a.p) /\ Ends(a.p) \subseteq a.n
           /\ Agree(a, b)
           /\ again = a
           /\ Off(a.p) \subseteq all
           /\ \A x \in a.n \ g.n : \E y \in g.n : <<y, x>> \in all
Emit == Par.emit => PrintT(<<"CASE", ToJson([g |-> g, h |-> h, r |-> r])>>)
=============================================================================
