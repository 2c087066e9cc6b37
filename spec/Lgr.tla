--------------------------------- MODULE Lgr --------------------------------
(* RFC 7940 section 8: processing a label against an LGR.                    *)
EXTENDS Rules

FirstIn(L, x) == \E k \in DOMAIN L.chars : L.chars[k].cp[1] = x
At(L, lab, i) == {k \in DOMAIN L.chars : OccursAt(L.chars[k].cp, lab, i)}
CLen(L, k) == Len(L.chars[k].cp)
\* entries occurring at an offset have pairwise different lengths
LongestOf(L, K) == CHOOSE k \in K : \A j \in K : CLen(L, j) <= CLen(L, k)

\* rule names of the entries in K that refused the position, longest first
RECURSIVE RefusedNames(_, _)
RefusedNames(L, K) ==
    IF K = {} THEN <<>>
    ELSE LET k == LongestOf(L, K) IN
         <<IF L.chars[k].when # "" THEN L.chars[k].when ELSE L.chars[k].nwhen>>
           \o RefusedNames(L, K \ {k})

(* Segmentation: state (i, parts, invalid, chars), one action per position.  *)
RECURSIVE Segment(_, _, _, _, _, _)
Segment(L, lab, i, parts, inv, chars) ==
    IF i >= Len(lab) THEN [parts |-> parts, inv |-> inv, chars |-> chars]
    ELSE LET K == At(L, lab, i)
             OK == {k \in K : CtxOk(L, L.chars[k], lab, i)}
         IN IF OK # {}
            THEN LET k == LongestOf(L, OK) IN
                 Segment(L, lab, i + CLen(L, k), parts \o L.chars[k].cp, inv, Append(chars, k))
            ELSE Segment(L, lab, i + 1, parts,
                         Append(inv, [cp |-> lab[i + 1], rules |-> RefusedNames(L, K)]), chars)

Prelim(L, lab) == Segment(L, lab, 0, <<>>, <<>>, <<>>)
InRepertoire(L, lab) == Prelim(L, lab).inv = <<>>

(* ------------------------------ dispositions ----------------------------- *)
DefaultActions == <<
    [disp |-> "invalid",     match |-> "", nmatch |-> "", vk |-> "any", vs |-> <<"invalid">>],
    [disp |-> "blocked",     match |-> "", nmatch |-> "", vk |-> "any", vs |-> <<"blocked">>],
    [disp |-> "allocatable", match |-> "", nmatch |-> "", vk |-> "any", vs |-> <<"allocatable">>],
    [disp |-> "activated",   match |-> "", nmatch |-> "", vk |-> "all", vs |-> <<"activated">>],
    [disp |-> "valid",       match |-> "", nmatch |-> "", vk |-> "none", vs |-> <<>>] >>

Triggers(L, a, lab, types, only) ==
    /\ IF a.match # "" THEN MatchesLabel(L, RuleNamed(L, a.match).kids, lab)
       ELSE IF a.nmatch # "" THEN ~MatchesLabel(L, RuleNamed(L, a.nmatch).kids, lab)
       ELSE TRUE
    /\ CASE a.vk = "any"  -> types \cap Rng(a.vs) # {}
         [] a.vk = "all"  -> types # {} /\ types \subseteq Rng(a.vs)
         [] a.vk = "only" -> only /\ types # {} /\ types \subseteq Rng(a.vs)
         [] OTHER -> TRUE

RECURSIVE FirstTriggered(_, _, _, _, _, _)
FirstTriggered(L, acts, lab, types, only, k) ==
    IF k > Len(acts) THEN [disp |-> "none", idx |-> -1]
    ELSE IF Triggers(L, acts[k], lab, types, only) THEN [disp |-> acts[k].disp, idx |-> k - 1]
    ELSE FirstTriggered(L, acts, lab, types, only, k + 1)

Apply(L, lab, types, only) == FirstTriggered(L, L.actions \o DefaultActions, lab, types, only, 1)

\* entries usable at some offset of the label, as <<offset, entry>>
Usable(L, lab) == {<<i, k>> \in (0..(Len(lab) - 1)) \X (DOMAIN L.chars) :
                      OccursAt(L.chars[k].cp, lab, i) /\ CtxOk(L, L.chars[k], lab, i)}
Reflexive(L, k) == {v \in DOMAIN L.chars[k].vars : L.chars[k].vars[v].cp = L.chars[k].cp}

TestDisposition(L, lab, reflexive) ==
    LET U == Usable(L, lab)
        R(u) == IF ~reflexive THEN {}
                ELSE {v \in Reflexive(L, u[2]) : CtxOk(L, L.chars[u[2]].vars[v], lab, u[1])}
        types == UNION {{L.chars[u[2]].vars[v].type : v \in R(u)} : u \in U}
        only == types # {} /\ \A u \in U : R(u) # {}
    IN Apply(L, lab, types, only)

\* result of the full eligibility test
Eligible(L, lab, isVariant) ==
    LET p == Prelim(L, lab) IN
    IF p.inv # <<>> THEN [ok |-> FALSE, parts |-> p.parts, inv |-> p.inv, disp |-> "invalid", idx |-> -1, chars |-> p.chars]
    ELSE LET d == TestDisposition(L, lab, ~isVariant) IN
         IF d.disp = "invalid"
         THEN [ok |-> FALSE, parts |-> <<>>, inv |-> <<>>, disp |-> "invalid", idx |-> d.idx, chars |-> p.chars]
         ELSE [ok |-> TRUE, parts |-> lab, inv |-> <<>>, disp |-> d.disp, idx |-> d.idx, chars |-> p.chars]

(* ------------------------------- variants -------------------------------- *)
(* Permutation(L, rest, pre, hasVar): the set of [cp, types, only] obtained  *)
(* for the unconsumed part `rest` of the label after the permuted prefix     *)
(* `pre`; hasVar tells whether the prefix already took a mapping.            *)
WithVariants(L, rest, pre) ==
    {k \in At(L, rest, 0) : L.chars[k].vars # <<>> /\ CtxOk(L, L.chars[k], pre \o rest, Len(pre))}

Bases(L, rest, pre) ==
    LET A == At(L, rest, 0)
        W == WithVariants(L, rest, pre)
        B == IF W # {} THEN W ELSE IF A # {} THEN {LongestOf(L, A)} ELSE {}
        \* a sequence does not hide the shorter entries it starts with
        D == {k \in A : \E s \in B : CLen(L, s) > 1 /\ CLen(L, k) < CLen(L, s)}
    IN B \cup D

Perms(L, k, rest, pre) ==
    LET e == L.chars[k]
        tail == DropN(rest, Len(e.cp))
        V == {v \in DOMAIN e.vars : CtxOk(L, e.vars[v], pre \o e.vars[v].cp \o tail, Len(pre))}
        mapped == {[cp |-> e.vars[v].cp, types |-> IF e.vars[v].type = "" THEN {} ELSE {e.vars[v].type},
                    isv |-> TRUE] : v \in V}
    IN IF \E v \in V : e.vars[v].cp = e.cp THEN mapped
       ELSE mapped \cup {[cp |-> e.cp, types |-> {}, isv |-> FALSE]}

RECURSIVE Permute(_, _, _, _)
Permute(L, rest, pre, hasVar) ==
    IF rest = <<>> THEN {}
    ELSE UNION {
        LET P == TLCEval(Perms(L, k, rest, pre))
            n == CLen(L, k)
        IN IF Len(rest) > n
           THEN UNION {{[cp |-> p.cp \o g.cp, types |-> p.types \cup g.types, only |-> p.isv /\ g.only] :
                           g \in Permute(L, DropN(rest, n), pre \o p.cp, p.isv \/ hasVar)} : p \in P}
           ELSE IF hasVar \/ L.chars[k].vars # <<>>
           THEN {[cp |-> p.cp, types |-> p.types, only |-> p.isv] : p \in P}
           ELSE {} : k \in Bases(L, rest, pre)}

\* disposition of one derivation g of a variant label of lab
DerivDisp(L, lab, g) ==
    LET e == Eligible(L, g.cp, g.cp # lab) IN
    IF ~e.ok THEN [cp |-> g.cp, disp |-> "invalid", idx |-> e.idx, types |-> g.types, inv |-> e.inv]
    ELSE LET a == Apply(L, g.cp, g.types, g.only)
         IN [cp |-> g.cp, disp |-> a.disp, idx |-> a.idx, types |-> g.types, inv |-> e.inv]

Derivations(L, lab) == {DerivDisp(L, lab, g) : g \in TLCEval(Permute(L, lab, <<>>, FALSE))}

(* ------------------------------ index label ------------------------------ *)
RECURSIVE Partitions(_, _, _)                     \* set of sequences of entry numbers
Partitions(L, lab, i) ==
    IF i = Len(lab) THEN {<<>>}
    ELSE UNION {{<<k>> \o p : p \in Partitions(L, lab, i + CLen(L, k))} :
                  k \in {j \in At(L, lab, i) : CtxOk(L, L.chars[j], lab, i)}}

RECURSIVE IndexOf(_, _, _, _)
IndexOf(L, part, lab, i) ==
    IF part = <<>> THEN <<>>
    ELSE LET e == L.chars[Head(part)]
             rest == DropN(lab, i + Len(e.cp))
             pre == Slice(lab, 1, i)
             ids == {e.cp} \cup {e.vars[v].cp : v \in {w \in DOMAIN e.vars :
                                    CtxOk(L, e.vars[w], pre \o e.vars[w].cp \o rest, i)}}
         IN LexMin(ids) \o IndexOf(L, Tail(part), lab, i + Len(e.cp))

IndexLabel(L, lab) == LexMin({IndexOf(L, p, lab, 0) : p \in Partitions(L, lab, 0)})

(* ------------------------- size of the variant set ----------------------- *)
NonIdentity(L, k) == {v \in DOMAIN L.chars[k].vars : L.chars[k].vars[v].cp # L.chars[k].cp}
RECURSIVE Product(_, _, _)
Product(L, chars, n) == IF chars = <<>> THEN n
                        ELSE Product(L, Tail(chars), n * (1 + Cardinality(NonIdentity(L, Head(chars)))))
Estimate(L, lab) == Product(L, Prelim(L, lab).chars, 1)
=============================================================================
