------------------------------ MODULE Registry -----------------------------
(* The repertoire of the code points IDNA2008 permits, made of the IANA       *)
(* registry of derived properties: a registry is a sequence of                *)
(* [first |-> c, last |-> c, prop |-> p], disjoint; a table holds several     *)
(* registries [id |-> text, records |-> registry], of which one counts,       *)
(* named after the version up to Unicode 6.0.0.                               *)
EXTENDS Base
Permitted == {"PVALID", "CONTEXTO", "CONTEXTJ"}
Upto600(v) == LexLess(v, <<6, 0, 0>>) \/ v = <<6, 0, 0>>
Dots(v) == ToString(v[1]) \o "." \o ToString(v[2]) \o "." \o ToString(v[3])
Id(v) == IF Upto600(v) THEN "idna-tables-" \o Dots(v) \o "-properties" ELSE "idna-tables-properties"
Counting(t, v) == FlatSeq(Map(t, LAMBDA g : IF g.id = Id(v) THEN g.records ELSE <<>>))
Kept(t, v) == Filter(Counting(t, v), LAMBDA x : x.prop \in Permitted)
Members(rs) == UNION {x.first..x.last : x \in Rng(rs)}
(* what was made: entries [first, last] in any order, plain *)
MadeFails(t, v, o) ==
    LET m == Members(o.entries) w == Members(Kept(t, v)) IN
    Failing({<<"left-out", w \subseteq m>>, <<"not-permitted", m \subseteq w>>,
             <<"twice", SumSet(LAMBDA k : o.entries[k].last - o.entries[k].first + 1, DOMAIN o.entries) = Cardinality(m)>>,
             <<"plain", o.plain>>})
(* it serves as the repertoire another LGR is validated against *)
UseFails(t, v, o) == Failing({<<"accepts", \A x \in Rng(o.probes) : x.ok <=> x.cp \in Members(Kept(t, v))>>})
=============================================================================
