------------------------------- MODULE T_C15 --------------------------------
(* Recorded comparisons of two LGRs: the report read back as entries, both     *)
(* ways round, with and without identical elements; and the comparison of the  *)
(* dispositions of labels.                                                     *)
EXTENDS Compare, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)

Swap(R) == {[e EXCEPT !.side = IF @ = "1" THEN "2" ELSE IF @ = "2" THEN "1" ELSE @] : e \in R}

\* what the two LGRs say of one label: sets of <<variant, disposition>>
LabelReport(d1, d2) ==
    LET V(d) == {x[1] : x \in d}
        D(d, v) == (CHOOSE x \in d : x[1] = v)[2]
    IN [changed |-> {<<v, D(d2, v), D(d1, v)>> : v \in {w \in V(d1) \cap V(d2) : D(d1, w) # D(d2, w)}},
        new |-> V(d2) \ V(d1), removed |-> V(d1) \ V(d2)]
LabelFails(x) ==
    LET e == LabelReport(Rng(x.d1), Rng(x.d2)) IN Failing({
      <<"label-dispositions", Rng(x.changed) = e.changed /\ Len(x.changed) = Cardinality(e.changed)>>,
      <<"label-new-variants", Rng(x.new) = e.new /\ Len(x.new) = Cardinality(e.new)>>,
      <<"label-removed-variants", Rng(x.removed) = e.removed /\ Len(x.removed) = Cardinality(e.removed)>>,
      <<"label-no-change", x.nochange = (e.changed = {}) /\ x.novariants = (e.new = {} /\ e.removed = {})>>})

\* two sets made of A and B under other names and languages: every two LGRs of one script are compared
SetsFails(A, B, C, full, s) ==
    LET One == C[1] Two == C[2]
        Of(X, t) == Filter(X, LAMBDA m : m.langs # <<>> /\ m.langs[1] = t)
        Scripts(X) == {m.langs[1] : m \in {n \in Rng(X) : n.langs # <<>>}}
        As(m) == LET D == IF m.doc = 0 THEN A ELSE B IN [D EXCEPT !.meta.langs = m.langs]
        Named(X, t) == Map(Of(X, t), LAMBDA m : m.name)
        By(X, n) == CHOOSE m \in Rng(X) : m.name = n
        want == {<<t, m, n>> : t \in Scripts(One) \cap Scripts(Two), m \in {x.name : x \in Rng(One)}, n \in {x.name : x \in Rng(Two)}}
        good == {w \in want : w[2] \in Rng(Named(One, w[1])) /\ w[3] \in Rng(Named(Two, w[1]))}
        Rep(p) == TLCEval(Report(As(By(One, p.one)), As(By(Two, p.two))))
    IN Failing({
        <<"set-pairs", {<<p.script, p.one, p.two>> : p \in Rng(s.pairs)} = good /\ Len(s.pairs) = Cardinality(good)>>,
        <<"set-missing", /\ Rng(s.missing) = {<<t, "S1", Named(One, t), "S2">> : t \in Scripts(One) \ Scripts(Two)}
                                             \cup {<<t, "S2", Named(Two, t), "S1">> : t \in Scripts(Two) \ Scripts(One)}
                         /\ NoDup(s.missing)>>,
        <<"set-twice", \A t \in Scripts(One) \cup Scripts(Two) :
                          /\ Count(s.twice, LAMBDA x : x = <<"S1", t>>) = SetMax({0, Len(Of(One, t)) - 1})
                          /\ Count(s.twice, LAMBDA x : x = <<"S2", t>>) = SetMax({0, Len(Of(Two, t)) - 1})>>,
        <<"set-metadata", Rng(s.head.entries) = MetaReport(A.meta, B.meta) /\ s.head.rest = <<>>>>,
        <<"set-metadata-of-the-identical", Rng(s.head.same) \subseteq (IF full THEN MetaShared(A.meta, B.meta) ELSE {})>>})
       \cup UNION {Failing({<<"set-report", Rng(p.report.entries) = Rep(p)>>,
                           <<"set-report-of-the-identical", Rng(p.report.same) = IF full THEN SharedParts(As(By(One, p.one)), As(By(Two, p.two))) ELSE {}>>,
                           <<"set-report-listed", LET P == As(By(One, p.one)) Q == As(By(Two, p.two)) IN
                                Rng(p.report.listed) = IF full THEN Common(P, Q) ELSE Common(P, Q) \ Identical(P, Q)>>,
                           <<"set-report-unreadable", p.report.rest = <<>>>>}) : p \in {q \in Rng(s.pairs) : <<q.script, q.one, q.two>> \in good}}

Fails(r) == IF r.o.exc # "" THEN {"raised " \o r.o.exc} ELSE
    LET o == r.o.O
        A == r.o.A  B == r.o.B
        R == TLCEval(Report(A, B))
        same == Cardinality(Identical(A, B))
    IN Failing({
         <<"input-modified", r.o.same>>,
         <<"report", Rng(o.diff.entries) = R>>,
         <<"report-of-the-identical", Rng(o.full.same) = SharedParts(A, B) /\ o.diff.same = <<>>>>,
         <<"report-swapped", Rng(o.swap.entries) = Swap(R)>>,
         <<"report-with-identical", Rng(o.full.entries) = R>>,
         <<"self-report", o.self.entries = <<>> /\ o.self.identical = Cardinality(DOMAIN CharMap(A))>>,
         <<"identical-count", o.diff.identical = same /\ o.swap.identical = same>>,
         <<"listed-code-points", Rng(o.full.listed) = Common(A, B) /\ Rng(o.diff.listed) = Common(A, B) \ Identical(A, B)>>,
         <<"unreadable-report", o.diff.rest = <<>> /\ o.full.rest = <<>> /\ o.swap.rest = <<>>>>})
       \cup (IF o.sets.exc # "" THEN {"sets-raised " \o o.sets.exc} ELSE SetsFails(A, B, r.c.sets, r.c.full, o.sets))
       \* with sequences, labels may share an index without being variants of each other: the tool then refuses to compare
       \cup (IF r.o.O.labels.exc = "InvalidSymmetry" /\ r.c.seqs THEN {}
             ELSE IF r.o.O.labels.exc # "" THEN {"labels-raised " \o r.o.O.labels.exc} ELSE
             UNION {LabelFails(x) : x \in Rng(o.labels.per)}
             \cup Failing({<<"labels-compared", {x.label : x \in Rng(o.labels.per)} = Rng(o.labels.inboth)>>,
                           <<"labels-not-in-lgr", Rng(o.labels.out1) = Rng(o.labels.in2only) \cup Rng(o.labels.innone)
                                                  /\ Rng(o.labels.out2) = Rng(o.labels.in1only) \cup Rng(o.labels.innone)>>}))
INSTANCE TraceRun
=============================================================================
