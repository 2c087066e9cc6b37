------------------------------ MODULE EditsObs ------------------------------
(* What can be seen of the state of the editing machine: the complete         *)
(* projection o of an LGR (entries, iteration, lookups, variant sets, tag     *)
(* classes, references) against the state s it should be in.                  *)
EXTENDS Edits
AsVars(vs) == {vs[k] : k \in DOMAIN vs}
Entry(e) == [when |-> e.when, nwhen |-> e.nwhen, tags |-> e.tags, refs |-> e.refs, com |-> e.com, rng |-> e.rng, vars |-> AsVars(e.vars)]
CpsOf(s) == [k \in DOMAIN s |-> s[k].cp]
Bare(e) == [when |-> e.when, nwhen |-> e.nwhen, com |-> e.com, rng |-> e.rng,
            vars |-> {[cp |-> v.cp, when |-> v.when, nwhen |-> v.nwhen, type |-> v.type, com |-> v.com] : v \in e.vars}]
Citations(e) == <<e.refs, {<<v.cp, v.when, v.nwhen, v.refs>> : v \in e.vars}>>

\* the expected iteration: a range shows as its first member
Shown(s) == {c \in DOMAIN s.E : s.E[c].rng = <<>> \/ s.E[c].rng[1] = c[1]}
SortedVars(vs) == \A j \in 1..(Len(vs) - 1) : vs[j].cp = vs[j + 1].cp \/ LexLess(vs[j].cp, vs[j + 1].cp)
\* maximal connected entries (through variants that exist as entries), used for variant sets
RECURSIVE Reach(_, _)
Reach(s, seen) ==
    LET more == {v.cp : v \in UNION {s.E[c].vars : c \in seen}} \cap DOMAIN s.E IN
    IF more \subseteq seen THEN seen ELSE Reach(s, seen \cup more)
VarSets(s) == {S \in {Reach(s, {c}) : c \in DOMAIN s.E} : Cardinality(S) > 1}

ObsFails(s, o) ==
    LET got == [c \in Rng(CpsOf(o.chars)) |-> Entry(o.chars[CHOOSE k \in DOMAIN o.chars : o.chars[k].cp = c])]
        same == DOMAIN got = DOMAIN s.E
    IN Failing({
     <<"entries", same /\ NoDup(CpsOf(o.chars))>>,
     <<"attributes", same => \A c \in DOMAIN got : Bare(got[c]) = Bare(s.E[c])>>,
     <<"variants-listed", \A k \in DOMAIN o.chars : NoDup(o.chars[k].vars) /\ SortedVars(o.chars[k].vars)>>,
     <<"tags-carried", same => \A c \in DOMAIN got : got[c].tags = s.E[c].tags>>,
     <<"citations", same => \A c \in DOMAIN got : Citations(got[c]) = Citations(s.E[c])>>,
     <<"size", o.len = Cardinality(DOMAIN s.E)>>,
     <<"ranges", NoDup(o.ranges) /\ Rng(o.ranges) = Ranges(s)>>,
     <<"iteration", /\ NoDup(CpsOf(o.iter)) /\ Rng(CpsOf(o.iter)) = Shown(s)
                    /\ \A k \in DOMAIN o.iter : o.iter[k].cp \in DOMAIN s.E => o.iter[k].rng = s.E[o.iter[k].cp].rng
                    /\ \A k \in 1..(Len(o.iter) - 1) :
                          LET a == o.iter[k].cp
                              b == o.iter[k + 1].cp
                          IN a[1] < b[1] \/ (a[1] = b[1] /\ Len(a) <= Len(b))>>,
     <<"lookup", \A k \in DOMAIN o.probes :
          LET p == o.probes[k]
              h == Has(s, p.cp)
              bad == Idna(s, p.cp) # {}
          IN p.mem = h /\ p.get = (IF bad THEN "CharInvalidIdnaProperty" ELSE IF h THEN "" ELSE "NotInLGR")
             /\ p.chk = (IF bad THEN "CharInvalidIdnaProperty" ELSE IF h THEN "true" ELSE "false")
             /\ p.nvars = (IF h /\ ~bad THEN Cardinality(s.E[p.cp].vars) ELSE -1)>>,
     <<"prefix", \A k \in DOMAIN o.prefix :
          LET p == o.prefix[k]
              S == {c \in DOMAIN s.E : c[1] = p.c}
          IN p.exc = (IF S = {} THEN "NotInLGR" ELSE "") /\ NoDup(p.cps) /\ Rng(p.cps) = S
             /\ \A j \in 1..(Len(p.cps) - 1) : Len(p.cps[j]) >= Len(p.cps[j + 1])
             /\ Rng(p.vcps) = {c \in S : s.E[c].vars # {}}>>,
     <<"variant-sets", NoDup(o.vsets) /\ {Rng(o.vsets[k]) : k \in DOMAIN o.vsets} = VarSets(s)>>,
     <<"tag-class", /\ \A t \in UsedTags(s) : \E k \in DOMAIN o.tagcls : o.tagcls[k].tag = t
                    /\ \A k \in DOMAIN o.tagcls : NoDup(o.tagcls[k].cps) /\ Rng(o.tagcls[k].cps) = TagClass(s, o.tagcls[k].tag)>>,
     <<"tag-list", NoDup(o.alltags) /\ UsedTags(s) \subseteq Rng(o.alltags)
                   /\ Rng(o.alltags) = {o.tagcls[k].tag : k \in DOMAIN o.tagcls}>>,
     <<"reference-table", o.refs = s.R>>,
     <<"dangling", \A c \in DOMAIN got : Rng(got[c].refs) \subseteq {o.refs[k].id : k \in DOMAIN o.refs}
                       /\ \A v \in got[c].vars : Rng(v.refs) \subseteq {o.refs[k].id : k \in DOMAIN o.refs}>>})
=============================================================================
