-------------------------------- MODULE Rules -------------------------------
(* RFC 7940 section 6: character classes, matchers, whole-label and context  *)
(* rules.  An LGR L is a record whose field `chars` is a sequence of entries *)
(*   [cp, when, nwhen, tags, vars]     (cp: non-empty sequence of code points)*)
(* and whose fields `classes`, `rules` are sequences of [name, ...] records. *)
(* A matcher is a record [t |-> kind, ...] as produced by the harness.       *)
EXTENDS Base

ClassNamed(L, n) == L.classes[CHOOSE k \in DOMAIN L.classes : L.classes[k].name = n]
RuleNamed(L, n) == L.rules[CHOOSE k \in DOMAIN L.rules : L.rules[k].name = n]

\* code points carrying a tag: single code points of the repertoire only
TagMembers(L, tag) == {L.chars[k].cp[1] : k \in {j \in DOMAIN L.chars :
                          Len(L.chars[j].cp) = 1 /\ tag \in Rng(L.chars[j].tags)}}

RECURSIVE InClass(_, _, _)
InClass(L, c, x) ==
    CASE c.t = "cps"   -> x \in Rng(c.cps)
      [] c.t = "tag"   -> x \in TagMembers(L, c.tag)
      [] c.t = "prop"  -> x \in Rng(c.ext)        \* extension over the code points in play
      [] c.t = "cref"  -> InClass(L, ClassNamed(L, c.name).def, x)
      [] c.t = "union" -> \E k \in DOMAIN c.kids : InClass(L, c.kids[k], x)
      [] c.t = "inter" -> InClass(L, c.kids[1], x) /\ InClass(L, c.kids[2], x)
      [] c.t = "diff"  -> InClass(L, c.kids[1], x) /\ ~InClass(L, c.kids[2], x)
      [] c.t = "symd"  -> InClass(L, c.kids[1], x) # InClass(L, c.kids[2], x)
      [] c.t = "compl" -> ~InClass(L, c.kids[1], x)

(* Matchers denote relations between start and end offsets (0..Len(lab)).    *)
(* Ends(L,n,lab,S,anc) is the image of the offset set S.  `anc` is the code  *)
(* point sequence being evaluated, <<>> outside context rules.               *)
RECURSIVE Ends(_, _, _, _, _), EndsSeq(_, _, _, _, _), Once(_, _, _, _, _),
          RepN(_, _, _, _, _, _), RepUpTo(_, _, _, _, _, _)

EndsSeq(L, kids, lab, S, anc) ==
    IF kids = <<>> \/ S = {} THEN S
    ELSE EndsSeq(L, Tail(kids), lab, Ends(L, Head(kids), lab, S, anc), anc)

Once(L, n, lab, S, anc) ==
    CASE n.t = "start"  -> S \cap {0}
      [] n.t = "end"    -> S \cap {Len(lab)}
      [] n.t = "any"    -> {p + 1 : p \in {q \in S : q < Len(lab)}}
      [] n.t = "char"   -> {p + Len(n.cps) : p \in {q \in S : OccursAt(n.cps, lab, q)}}
      [] n.t = "anchor" -> IF anc = <<>> THEN {}
                           ELSE {p + Len(anc) : p \in {q \in S : OccursAt(anc, lab, q)}}
      [] n.t = "class"  -> {p + 1 : p \in {q \in S : q < Len(lab) /\ InClass(L, n.cls, lab[q + 1])}}
      [] n.t = "choice" -> UNION {Ends(L, n.kids[k], lab, S, anc) : k \in DOMAIN n.kids}
      [] n.t = "rule"   -> EndsSeq(L, n.kids, lab, S, anc)
      [] n.t = "ref"    -> EndsSeq(L, RuleNamed(L, n.name).kids, lab, S, anc)
      [] n.t = "ahead"  -> {p \in S : EndsSeq(L, n.kids, lab, {p}, anc) # {}}
      [] n.t = "behind" -> {p \in S : p \in EndsSeq(L, n.kids, lab, 0..p, anc)}

RepN(L, n, lab, S, anc, k) ==
    IF k = 0 \/ S = {} THEN S ELSE RepN(L, n, lab, TLCEval(Once(L, n, lab, S, anc)), anc, k - 1)

\* union of 0..k further iterations; every iteration beyond Len+1 is idle
RepUpTo(L, n, lab, S, anc, k) ==
    IF k = 0 \/ S = {} THEN S
    ELSE S \cup RepUpTo(L, n, lab, TLCEval(Once(L, n, lab, S, anc)), anc, k - 1)

Ends(L, n, lab, S, anc) ==
    IF n.t \in {"start", "end", "anchor", "ahead", "behind"} \/ (n.min = 1 /\ n.max = 1)
    THEN TLCEval(Once(L, n, lab, S, anc))
    ELSE LET low == TLCEval(RepN(L, n, lab, S, anc, n.min))
             more == IF n.max = -1 THEN Len(lab) + 1
                     ELSE IF n.max - n.min > Len(lab) + 1 THEN Len(lab) + 1
                     ELSE n.max - n.min
         IN TLCEval(RepUpTo(L, n, lab, low, anc, more))

\* does a rule body contribute anything at all?  (an empty rule matches nothing)
RECURSIVE Contentless(_, _)
Contentless(L, n) ==
    /\ n.t \in {"rule", "ref"}
    /\ n.min = 1 /\ n.max = 1 /\ ~n.cnt
    /\ LET kids == IF n.t = "rule" THEN n.kids ELSE RuleNamed(L, n.name).kids
       IN \A k \in DOMAIN kids : Contentless(L, kids[k])

EmptyRule(L, kids) == \A k \in DOMAIN kids : Contentless(L, kids[k])

RECURSIVE HasAnchor(_, _)
HasAnchor(L, kids) ==
    \E k \in DOMAIN kids :
        \/ kids[k].t = "anchor"
        \/ kids[k].t \in {"choice", "rule", "ahead", "behind"} /\ HasAnchor(L, kids[k].kids)
        \/ kids[k].t = "ref" /\ HasAnchor(L, RuleNamed(L, kids[k].name).kids)

\* a whole-label rule matches if it matches somewhere in the label
MatchesLabel(L, kids, lab) ==
    ~EmptyRule(L, kids) /\ EndsSeq(L, kids, lab, 0..Len(lab), <<>>) # {}

\* a context rule is parameterised by the code points `cp` found at offset i
MatchesContext(L, kids, lab, cp, i) ==
    IF EmptyRule(L, kids) THEN FALSE
    ELSE IF HasAnchor(L, kids) THEN EndsSeq(L, kids, lab, {i}, cp) # {}
    ELSE EndsSeq(L, kids, lab, 0..Len(lab), <<>>) # {}

RuleOk(L, name, lab, cp, i) == MatchesContext(L, RuleNamed(L, name).kids, lab, cp, i)

\* when / not-when of an entry or a variant e
CtxOk(L, e, lab, i) ==
    IF e.when # "" THEN RuleOk(L, e.when, lab, e.cp, i)
    ELSE IF e.nwhen # "" THEN ~RuleOk(L, e.nwhen, lab, e.cp, i)
    ELSE TRUE
=============================================================================
