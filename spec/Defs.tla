-------------------------------- MODULE Defs --------------------------------
(* Building the <rules> section of an LGR: which class, rule and action       *)
(* definitions are well formed (RFC 7940, sections 6 and 7), what adding one  *)
(* does, and which rules can be evaluated afterwards.                         *)
(* A definition is a tree of nodes                                            *)
(*   [k, t, name, by, also, kids]                                             *)
(* k: class / rule / m (other matcher) / action; name, by: "" if absent;      *)
(* also: something else a by-ref element must not have, "" if absent.  For an *)
(* action, name and by are its match and not-match rules.                     *)
(* The state is [cls, rls: sequences of named definitions, acts].             *)
EXTENDS Base
Least(t) == CASE t = "compl" -> 1 [] t \in {"inter", "diff", "symd", "union"} -> 2 [] OTHER -> 0
Most(t) == CASE t = "compl" -> 1 [] t \in {"inter", "diff", "symd"} -> 2 [] OTHER -> 99
(* wrong in itself, wherever it stands *)
RECURSIVE Broken(_)
Broken(d) ==
    IF d.k = "action" THEN (IF d.name # "" /\ d.by # "" THEN {"match-not-match"} ELSE {})
    ELSE (IF d.by # "" /\ (d.name # "" \/ d.also # "" \/ d.kids # <<>>) THEN {"by-ref-and-other"} ELSE {})
         \cup (IF d.k = "class" /\ Len(d.kids) > Most(d.t) THEN {"children"} ELSE {})
         \cup UNION {Broken(d.kids[j]) : j \in DOMAIN d.kids}
Names(s) == {s[j].name : j \in DOMAIN s}
(* wrong where it stands: C, R are the names seen so far *)
RECURSIVE Bad(_, _, _, _)
Bad(d, top, C, R) ==
    IF d.k = "action" THEN {}
    ELSE (IF d.by # "" /\ d.by \notin (IF d.k = "class" THEN C ELSE R) THEN {"undefined"} ELSE {})
         \cup (IF d.k # "m" /\ top # (d.name # "") THEN {"name"} ELSE {})
         \cup (IF d.k = "class" /\ Len(d.kids) < Least(d.t) THEN {"children"} ELSE {})
         \cup UNION {Bad(d.kids[j], FALSE, C, R) : j \in DOMAIN d.kids}
Start == [cls |-> <<>>, rls |-> <<>>, acts |-> 0]
BadIn(S, d) == Bad(d, TRUE, Names(S.cls), Names(S.rls))
Accepted(S, d, force) == Broken(d) = {} /\ (force \/ BadIn(S, d) = {})
Reasons(S, d) == IF Broken(d) # {} THEN Broken(d) ELSE BadIn(S, d)
Put(S, d) == CASE d.k = "class" -> [S EXCEPT !.cls = Append(@, d)]
               [] d.k = "rule" -> [S EXCEPT !.rls = Append(@, d)]
               [] OTHER -> [S EXCEPT !.acts = @ + 1]
Add(S, d, force) == IF Accepted(S, d, force) THEN Put(S, d) ELSE S

(* a definition that leads to an undefined one, or to a combination of too few classes, has no meaning *)
Def(s, n) == s[CHOOSE j \in DOMAIN s : s[j].name = n]
RECURSIVE Dangling(_, _)
Dangling(S, d) ==
    IF d.by # "" THEN LET s == IF d.k = "class" THEN S.cls ELSE S.rls IN
                      IF d.by \notin Names(s) THEN TRUE ELSE Dangling(S, Def(s, d.by))
    ELSE \E j \in DOMAIN d.kids : Dangling(S, d.kids[j])
RECURSIVE Short(_, _)
Short(S, d) ==
    IF d.by # "" THEN LET s == IF d.k = "class" THEN S.cls ELSE S.rls IN
                      IF d.by \notin Names(s) THEN FALSE ELSE Short(S, Def(s, d.by))
    ELSE (d.k = "class" /\ Len(d.kids) < Least(d.t)) \/ \E j \in DOMAIN d.kids : Short(S, d.kids[j])
(* reading a document: everything, or nothing at the first definition that cannot be taken *)
RECURSIVE Read(_, _, _)
Read(S, ds, force) ==
    IF ds = <<>> THEN [ok |-> TRUE, s |-> S, why |-> {}]
    ELSE IF Accepted(S, Head(ds), force) THEN Read(Put(S, Head(ds)), Tail(ds), force)
    ELSE [ok |-> FALSE, s |-> S, why |-> Reasons(S, Head(ds))]
=============================================================================
