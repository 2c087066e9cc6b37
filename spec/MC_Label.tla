------------------------------ MODULE MC_Label ------------------------------
(* Every LGR made by choosing, for each slot, one of its options (a sequence  *)
(* of entries) and one list of actions.  What section 8 of RFC 7940 promises  *)
(* of every label is checked on all labels of up to Par.len code points, and  *)
(* the choice is printed for the real code.                                   *)
EXTENDS Lgr, Json, IOUtils
VARIABLES s, a
Par == JsonDeserialize(IOEnv.PAR)   \* [slots, acts, classes, rules, alpha, len, closed, emit]
Most == SetMax({Len(Par.slots[k]) : k \in DOMAIN Par.slots})
L == [chars |-> FlatSeq([k \in DOMAIN s |-> Par.slots[k][s[k]]]), classes |-> Par.classes, rules |-> Par.rules, actions |-> Par.acts[a]]
Labels == UNION {[1..n -> Rng(Par.alpha)] : n \in 1..Par.len}

Init == /\ s \in {f \in [DOMAIN Par.slots -> 1..Most] : \A k \in DOMAIN Par.slots : f[k] <= Len(Par.slots[k])}
        /\ a \in DOMAIN Par.acts
Next == UNCHANGED <<s, a>>
Spec == Init /\ [][Next]_<<s, a>>

\* the parts found and the positions refused share out the label
Shared == \A x \in Labels : LET p == Prelim(L, x) IN
    /\ Len(p.parts) + Len(p.inv) = Len(x)
    /\ p.parts = FlatSeq([k \in DOMAIN p.chars |-> L.chars[p.chars[k]].cp])
    /\ p.inv = <<>> => p.parts = x
\* each label in the repertoire has exactly one disposition, that of an action, and is invalid only through one
Decided == \A x \in Labels : InRepertoire(L, x) =>
    LET e == Eligible(L, x, FALSE) IN e.idx \in 0..(Len(L.actions) + 4) /\ e.ok = (e.disp # "invalid")
\* all that replacing entries by any of their variants can spell
RECURSIVE Spell(_)
Spell(x) == IF x = <<>> THEN {<<>>}
            ELSE UNION {{h \o t : h \in {L.chars[k].cp} \cup {L.chars[k].vars[v].cp : v \in DOMAIN L.chars[k].vars}, t \in Spell(DropN(x, CLen(L, k)))} :
                        k \in At(L, x, 0)}
\* a variant is obtained by replacing entries only; no variant, no derivation
Spelled == \A x \in Labels : InRepertoire(L, x) =>
    LET D == Permute(L, x, <<>>, FALSE) IN
    /\ {d.cp : d \in D} \subseteq Spell(x)
    /\ \A k \in DOMAIN L.chars : (L.chars[k].cp = x /\ L.chars[k].vars # <<>> /\ CtxOk(L, L.chars[k], x, 0)) => D # {}
    /\ (\A k \in DOMAIN L.chars : L.chars[k].vars = <<>>) => D = {}
    /\ (\A k \in DOMAIN L.chars : Len(L.chars[k].cp) = 1 /\ \A v \in DOMAIN L.chars[k].vars : Len(L.chars[k].vars[v].cp) = 1)
         => Cardinality({d.cp : d \in D}) <= Estimate(L, x)
\* the index is reachable and at most the label
Indexed == \A x \in Labels : InRepertoire(L, x) => LET w == IndexLabel(L, x) IN w = x \/ LexLess(w, x)
\* on closed, unconditional variants of single code points: same index exactly if variants of each other; the index is its own index
Grouped == Par.closed => \A x \in Labels : InRepertoire(L, x) =>
    /\ IndexLabel(L, IndexLabel(L, x)) = IndexLabel(L, x)
    /\ \A y \in Labels : InRepertoire(L, y) =>
          (IndexLabel(L, x) = IndexLabel(L, y)) = (x = y \/ y \in {d.cp : d \in Permute(L, x, <<>>, FALSE)})
Emit == Par.emit => PrintT(<<"CASE", ToJson([s |-> s, a |-> a])>>)
=============================================================================
