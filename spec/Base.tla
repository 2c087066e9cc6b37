-------------------------------- MODULE Base --------------------------------
(* Sequence / set helpers shared by every module.  Code points are naturals, *)
(* labels are sequences of naturals, optional strings are "" when absent.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[k] : k \in DOMAIN s}
Slice(s, a, b) == SubSeq(s, a, b)                 \* 1-based, inclusive
DropN(s, n) == SubSeq(s, n + 1, Len(s))
IsPfx(p, s) == Len(p) <= Len(s) /\ \A k \in DOMAIN p : p[k] = s[k]
OccursAt(p, s, i) ==                              \* i is a 0-based offset
    i + Len(p) <= Len(s) /\ \A k \in DOMAIN p : p[k] = s[i + k]

RECURSIVE LexLess(_, _)                           \* strict order on sequences of ints
LexLess(a, b) ==
    IF b = <<>> THEN FALSE
    ELSE IF a = <<>> THEN TRUE
    ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
    ELSE LexLess(Tail(a), Tail(b))
LexMin(S) == CHOOSE a \in S : \A b \in S : a = b \/ LexLess(a, b)

RECURSIVE FlatSeq(_)                              \* concatenation of a sequence of sequences
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))

SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE SumSet(_, _)
SumSet(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + SumSet(f, S \ {x})

NoDup(s) == Cardinality(Rng(s)) = Len(s)
Map(s, f(_)) == [k \in DOMAIN s |-> f(s[k])]
Filter(s, p(_)) == SelectSeq(s, p)
Count(s, p(_)) == Len(SelectSeq(s, p))
SubsetSeq(s) == Rng(s)
Failing(pairs) == {p[1] : p \in {q \in pairs : ~q[2]}}  \* {<<clause, holds>>} -> failing clauses
=============================================================================
