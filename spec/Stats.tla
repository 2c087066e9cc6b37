-------------------------------- MODULE Stats -------------------------------
(* Counts over the entries of a repertoire (items as in Doc: a range is one   *)
(* item with rng = <<first, last>>).                                          *)
EXTENDS Base

IsRange(it) == it.rng # <<>>
Members(it) == IF IsRange(it) THEN it.rng[2] - it.rng[1] + 1 ELSE 1
IsSeq(it) == ~IsRange(it) /\ Len(it.cp) > 1
Idx(items, P(_)) == {k \in DOMAIN items : P(items[k])}
Total(items, f(_), P(_)) == LET g(k) == f(items[k]) IN SumSet(g, Idx(items, P))
One(it) == 1
Every(it) == TRUE
Targets(it) == {it.vars[k].cp : k \in DOMAIN it.vars}
HasVars(it) == it.vars # <<>>
NTargets(it) == Cardinality(Targets(it))
SetSize(it) == IF HasVars(it) THEN Cardinality(Targets(it) \cup {it.cp}) ELSE 0
Max0(S) == IF S = {} THEN 0 ELSE SetMax(S)
Tags(items) == UNION {Rng(items[k].tags) : k \in DOMAIN items}
Types(items) == UNION {{items[k].vars[j].type : j \in DOMAIN items[k].vars} : k \in DOMAIN items}
NType(it, t) == Cardinality({j \in DOMAIN it.vars : it.vars[j].type = t})

Codepoints(items) == Total(items, Members, Every)
Ranges(items) == Cardinality(Idx(items, IsRange))
LargestRange(items) == Max0({Members(items[k]) : k \in Idx(items, IsRange)})
Sequences(items) == Cardinality(Idx(items, IsSeq))
LargestSequence(items) == Max0({Len(items[k].cp) : k \in Idx(items, IsSeq)})
WithVariants(items) == Cardinality(Idx(items, HasVars))
Mappings(items) == Total(items, NTargets, Every)
LargestSet(items) == Max0({SetSize(items[k]) : k \in DOMAIN items})
ByTag(items, t) == LET Tagged(it) == t \in Rng(it.tags) IN Total(items, Members, Tagged)
ByType(items, t) == LET N(it) == NType(it, t) IN Total(items, N, Every)
\* avg10 is ten times the reported average
AverageOk(items, avg10) == LET n == WithVariants(items) IN
    IF n = 0 THEN avg10 = 0
    ELSE LET d == 10 * Mappings(items) - avg10 * n IN 2 * d <= n /\ 2 * d >= -n
=============================================================================
