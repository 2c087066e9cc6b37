------------------------------ MODULE Variants ------------------------------
(* The variant relation of an LGR.  C is a sequence of entries                *)
(* [cp, vars: seq of [cp, when, nwhen, type, ...]].                           *)
EXTENDS Base
Nodes(C) == {C[k].cp : k \in DOMAIN C}
EntryOf(C, cp) == C[CHOOSE k \in DOMAIN C : C[k].cp = cp]
VarsOf(C, cp) == IF cp \in Nodes(C) THEN EntryOf(C, cp).vars ELSE <<>>
Targets(C, cp) == {VarsOf(C, cp)[k].cp : k \in DOMAIN VarsOf(C, cp)}
Pairs(C) == {<<C[k].cp, v.cp>> : <<k, v>> \in UNION {{<<k, v>> : v \in Rng(C[k].vars)} : k \in DOMAIN C}}
(* mappings as <<source, variant>> *)
Mappings(C) == UNION {{<<C[k].cp, C[k].vars[v]>> : v \in DOMAIN C[k].vars} : k \in DOMAIN C}

Sym(P) == \A p \in P : <<p[2], p[1]>> \in P
Trans(P) == \A p, q \in P : (p[2] = q[1] /\ p[1] # q[2]) => <<p[1], q[2]>> \in P
RECURSIVE Closure(_)
Closure(P) ==
    LET Q == P \cup {<<p[2], p[1]>> : p \in P}
               \cup {<<pq[1][1], pq[2][2]>> : pq \in {x \in P \X P : x[1][2] = x[2][1] /\ x[1][1] # x[2][2]}}
    IN IF Q = P THEN P ELSE Closure(Q)

(* ------------------------------ validators ------------------------------- *)
Reverse(C, a, b) == SelectSeq(VarsOf(C, b), LAMBDA v : v.cp = a)
Whens(s) == {s[k].when : k \in DOMAIN s}
NWhens(s) == {s[k].nwhen : k \in DOMAIN s}
Id(a, v) == [cp |-> a, var |-> v.cp, when |-> v.when, nwhen |-> v.nwhen]
SymIssue(C, a, v, rules) ==
    IF v.cp \notin Nodes(C) THEN "not-in-repertoire"
    ELSE LET R == Reverse(C, a, v.cp) IN
         IF R = <<>> THEN "missing-symmetric-variant"
         ELSE IF rules /\ v.when # "" /\ v.when \notin Whens(R) THEN "when"
         ELSE IF rules /\ v.nwhen # "" /\ v.nwhen \notin NWhens(R) THEN "not-when"
         ELSE ""
SymIssues(C, rules) == {[m |-> Id(m[1], m[2]), issue |-> SymIssue(C, m[1], m[2], rules)] :
                           m \in {x \in Mappings(C) : SymIssue(C, x[1], x[2], rules) # ""}}
BasicSym(C) == \A m \in Mappings(C) : SymIssue(C, m[1], m[2], FALSE) = ""
StrictSym(C) == \A m \in Mappings(C) : SymIssue(C, m[1], m[2], TRUE) = ""
(* a chain a -> b -> c without a -> c *)
TransIssues(C) == {<<m[1], Id(<<>>, w)>> : <<m, w>> \in
                     {x \in UNION {{<<m, w>> : w \in Rng(VarsOf(C, m[2].cp))} : m \in Mappings(C)} :
                         x[2].cp # x[1][1] /\ x[2].cp \notin Targets(C, x[1][1])}}
AllIn(C) == \A m \in Mappings(C) : m[2].cp \in Nodes(C)
CondIssues(C, rules) == {[m |-> Id(m[1], m[2]), issue |-> "when"] : m \in {x \in Mappings(C) : x[2].when # "" /\ x[2].when \notin rules}}
                        \cup {[m |-> Id(m[1], m[2]), issue |-> "not-when"] : m \in {x \in Mappings(C) : x[2].nwhen # "" /\ x[2].nwhen \notin rules}}
=============================================================================
