------------------------------ MODULE Commands ------------------------------
(* The command-line tools that read LGRs and write LGRs or reports, as         *)
(* transitions over a folder of files.  A file is                              *)
(*   [k: "lgr", d: document, num: its dates, valid: meets the schema]          *)
(*   [k: "table", ls: lines of a legacy table], [k: "bad"], [k: "none"].       *)
(* A command c has op, ins (file names in the order given), second (names of   *)
(* the second set, for comparisons), out (file named by -o, or the one its     *)
(* output is sent to), opt (output by -o), dir (folder for harmonized LGRs),   *)
(* full (-g), rng (-r), libs (-l), quiet (-q).                                  *)
EXTENDS Base
Mg == INSTANCE Merge
Pp == INSTANCE Populate
Im == INSTANCE Import
Dc == INSTANCE Doc
Vl == INSTANCE Validate

Doc(fs, n) == fs[n].d
\* the name an LGR goes by
Plain(n) == IF Len(n) > 2 /\ SubSeq(n, 2, 2) = "/" THEN SubSeq(n, 3, Len(n)) ELSE n
Given(c) == c.ins \o c.second
\* an LGR the schema refuses is not worked on; the commands for sets only say so
Readable(c, fs, n) == fs[n].k = "lgr" /\ (c.rng => fs[n].valid)
SetOf(c) == c.op \in {"union", "inter", "diff"} /\ (Len(c.ins) > 1 \/ Len(c.second) > 1)
Unreadable(c, fs) ==
    IF c.op = "import" THEN fs[c.ins[1]].k # "table"
    ELSE IF c.op = "merge" \/ SetOf(c) THEN \E n \in Rng(Given(c)) : fs[n].k # "lgr"
    ELSE \E n \in Rng(Given(c)) : ~Readable(c, fs, n)
Misused(c) ==
    \/ c.op = "merge" /\ Len(c.ins) < 2
    \/ c.op \in {"union", "inter"} /\ SetOf(c)
    \/ c.op = "diff" /\ (Len(c.ins) = 1) # (Len(c.second) = 1)

(* ------------------------------ the documents ---------------------------- *)
Sorts == {"class", "rule", "action"}
SameDecls(D, O) == \A s \in Sorts : Mg!Decls(O, s) = Mg!Decls(D, s)
DumpFails(D, O) == Failing({
    <<"metadata", O.meta = Dc!MetaOf(D)>>,
    <<"references", O.refs = D.refs>>,
    <<"entries", Rng(O.items) = Dc!EntriesOf(D) /\ Len(O.items) = Len(D.items)>>,
    <<"order", O.order = <<"meta", "data", "rules">>>>,
    <<"declarations", SameDecls(D, O)>>})

\* every code point on its own, remembering its range
Flat(D) == FlatSeq(Map(D.items, LAMBDA it : IF it.rng = <<>> THEN <<it>> ELSE [k \in 1..(it.rng[2] - it.rng[1] + 1) |-> [it EXCEPT !.cp = <<it.rng[1] + k - 1>>]]))
PopulateFails(A, O) ==
    LET C == TLCEval(Flat(A)) D == TLCEval(Flat(O)) P == TLCEval(Pp!Closure(Pp!Pairs(C))) IN Failing({
        <<"entries", Pp!Nodes(D) = Pp!Wanted(C) /\ NoDup(D)>>,
        <<"entries-kept", \A k \in DOMAIN C : \E j \in DOMAIN D : Pp!Bare(D[j]) = Pp!Kept(P, C[k])>>,
        <<"entries-added", \A j \in DOMAIN D : D[j].cp \notin Pp!Nodes(C) => Pp!Plain(D[j])>>,
        <<"relation", Pp!Pairs(D) = P>>,
        <<"mappings-kept", \A m \in Pp!Mappings(C) : Pp!Survives(C, D, m[1], m[2])>>,
        <<"mappings-added", \A m \in Pp!Mappings(D) : Pp!IsOld(C, m[1], m[2]) \/ Pp!AddedOk(D, m[1], m[2])>>,
        <<"metadata", O.meta = Dc!MetaOf(A)>>,
        <<"references", O.refs = A.refs>>,
        <<"declarations", SameDecls(A, O)>>})

HarmFails(A, B, z, OA, OB, review) ==
    LET CA == TLCEval(Flat(A)) CB == TLCEval(Flat(B)) DA == TLCEval(Flat(OA)) DB == TLCEval(Flat(OB))
        a == TLCEval(Pp!Graph(CA)) b == TLCEval(Pp!Graph(CB))
        zg == IF z = <<>> THEN a ELSE TLCEval(Pp!Graph(Flat(z[1])))
        wa == TLCEval(IF z = <<>> THEN Pp!Harm(a, b) ELSE Pp!HarmRz(a, b, zg))
        wb == TLCEval(IF z = <<>> THEN Pp!Harm(b, a) ELSE Pp!HarmRz(b, a, zg))
        x == IF z = <<>> THEN a.n ELSE Pp!Harm(a, zg).n
        y == IF z = <<>> THEN b.n ELSE Pp!Harm(b, zg).n
        Rest(D, O) == [O.meta EXCEPT !.version = <<>>] = [Dc!MetaOf(D) EXCEPT !.version = <<>>] /\ O.refs = D.refs /\ SameDecls(D, O)
        Comment(D, O) == D.meta.version = <<>> \/ Mg!Mentions(O.meta.version[2], D.meta.version[2])
    IN {"first:" \o f : f \in Failing(Pp!Side(CA, DA, wa, Pp!Pop(a)))} \cup {"second:" \o f : f \in Failing(Pp!Side(CB, DB, wb, Pp!Pop(b)))}
       \cup Failing({
        <<"agree", Pp!Agree(Pp!Graph(DA), Pp!Graph(DB))>>,
        <<"review", Rng(review[1]) = x \ y /\ Rng(review[2]) = y \ x /\ NoDup(review[1]) /\ NoDup(review[2])>>,
        <<"rest", Rest(A, OA) /\ Rest(B, OB)>>,
        <<"version-comment", Comment(A, OA) /\ Comment(B, OB)>>})

\* members in merge order: by language, "und" last
MergedFails(fs, ord, m) ==
    LET M == [k \in DOMAIN ord |-> Doc(fs, ord[k])]
        num == [k \in DOMAIN ord |-> fs[ord[k]].num]
        S == [k \in DOMAIN ord |-> M[k].meta.langs[1]]
    IN Mg!MergeFails(M, S, num, m.scx, m.doc, m.num, m.today)
Conflict(fs, ns) == LET M == [k \in DOMAIN ns |-> Doc(fs, ns[k])] CM == Mg!Maps(M)
                    IN Mg!Impossible(CM, UNION {DOMAIN CM[k] : k \in DOMAIN CM})

ImportFails(ls, O) ==
    LET x == TLCEval(Im!Import(ls, [force |-> TRUE]))
        E(e) == [when |-> e.when, nwhen |-> e.nwhen, tags |-> e.tags, refs |-> e.refs, com |-> e.com, rng |-> e.rng, vars |-> Rng(e.vars)]
        D == Flat(O)
        got == [k \in {D[j].cp : j \in DOMAIN D} |-> E(D[CHOOSE j \in DOMAIN D : D[j].cp = k])]
        same == DOMAIN got = DOMAIN x.st.E
    IN Failing({
        <<"code-points", same /\ Len(D) = Cardinality(DOMAIN got)>>,
        <<"entries", same => \A k \in DOMAIN got : got[k] = x.st.E[k] /\ Len(D[CHOOSE j \in DOMAIN D : D[j].cp = k].vars) = Cardinality(got[k].vars)>>,
        <<"references", O.refs = x.st.R>>,
        <<"version", O.meta.version = IF x.no = "" THEN <<>> ELSE <<x.no, x.com>>>>,
        <<"date", O.meta.date = x.date>>,
        <<"nothing-else", O.decls = <<>> /\ O.meta.langs = <<>> /\ O.meta.scopes = <<>> /\ O.meta.desc = <<>> /\ O.meta.vstart = "" /\ O.meta.vend = "">>})

(* ------------------------------- the reports ----------------------------- *)
ReportFails(A, B, full, rep) ==
    Failing({<<"report", Rng(rep.entries) = Mg!Report(A, B)>>,
             <<"unreadable-report", rep.rest = <<>>>>,
             <<"listed", Rng(rep.listed) = IF full THEN Mg!Common(A, B) ELSE Mg!Common(A, B) \ Mg!Identical(A, B)>>,
             <<"identical", rep.identical = IF full THEN 0 ELSE Cardinality(Mg!Identical(A, B))>>})
Script(fs, n) == Doc(fs, n).meta.langs[1]
SetReportFails(c, fs, o) ==
    LET One == c.ins Two == c.second
        S1 == {Script(fs, n) : n \in Rng(One)} S2 == {Script(fs, n) : n \in Rng(Two)}
        Of(X, s) == CHOOSE n \in Rng(X) : Script(fs, n) = s
        One1(s) == Plain(Of(One, s)) Two1(s) == Plain(Of(Two, s))
    IN Failing({
        <<"scripts-of-one-set", Rng(o.missing) = {<<s, "first", One1(s)>> : s \in S1 \ S2} \cup {<<s, "second", Two1(s)>> : s \in S2 \ S1}>>,
        <<"scripts-compared", {<<p.script, p.one, p.two>> : p \in Rng(o.pairs)} = {<<s, One1(s), Two1(s)>> : s \in S1 \cap S2} /\ NoDup(o.pairs)>>,
        <<"set-metadata", Rng(o.report.entries) = Mg!MetaReport(o.sets[1].doc.meta, o.sets[2].doc.meta) /\ o.report.rest = <<>>>>})
       \cup UNION {{"pair:" \o f : f \in ReportFails(Doc(fs, Of(One, p.script)), Doc(fs, Of(Two, p.script)), TRUE, p.report)} : p \in {q \in Rng(o.pairs) : q.script \in S1 \cap S2}}
       \cup UNION {{"set:" \o f : f \in MergedFails(fs, o.sets[k].ord, o.sets[k])} : k \in {1, 2}}

\* conformance: what the document itself decides of the tests
Char(D) == SelectSeq(D.items, LAMBDA it : it.rng = <<>>)
Known(c, f, today) ==
    LET D == f.d C == TLCEval(Flat(D)) L == Map(Char(D), LAMBDA it : it.cp)
        desc == {k \in 2..Len(L) : LexLess(L[k], L[k-1]) \/ L[k] = L[k-1]}
        acts == Mg!Decls(D, "action")
        Dates == f.num.vstart # today /\ f.num.vend # today
    IN {<<"parse_xml", TRUE>>,
        <<"basic_symmetry", Pp!BasicSym(C)>>,
        <<"basic_transitivity", Pp!TransIssues(C) = {}>>,
        <<"char_ascending_order", \A k \in desc : IsPfx(L[k], L[k-1])>>,
        <<"standard_dispositions", \A k \in DOMAIN acts : Mg!Attr(acts[k], "disp") \in Vl!Standard>>}
       \cup (IF Pp!BasicSym(C) \/ Pp!StrictSym(C) THEN {<<"strict_symmetry", Pp!StrictSym(C)>>} ELSE {})
       \cup (IF desc = {} THEN {<<"char_strict_ascending_order", TRUE>>} ELSE {})
       \cup (IF c.rng THEN {<<"schema", f.valid>>} ELSE {})
       \cup (IF Dates THEN {<<"validity_end_expiry", f.num.vend = 0 \/ f.num.vend > today>>, <<"validity_started", f.num.vstart < today>>,
                            <<"validity_start_end", f.num.vstart = 0 \/ f.num.vend = 0 \/ f.num.vstart <= f.num.vend>>} ELSE {})
NotRun(c, f) == (IF f.d.meta.langs = <<>> THEN {"metadata_language"} ELSE {}) \cup (IF c.rng THEN {} ELSE {"schema"}) \cup (IF Dc!MetaOf(f.d).uver # "15.1.0" THEN {"codepoint_valid"} ELSE {})
FromLines(ls) == IF \E k \in DOMAIN ls : ls[k].head = "ERROR" THEN "FAIL" ELSE IF \E k \in DOMAIN ls : ls[k].head = "WARNING" THEN "WARN" ELSE "PASS"
CheckFails(c, f, o) ==
    LET ls == o.lines
        T == {ls[k].t : k \in DOMAIN ls}
        Of(t) == ls[CHOOSE k \in DOMAIN ls : ls[k].t = t]
    IN Failing({
        <<"verdict", o.verdict = FromLines(ls) /\ o.quiet = o.verdict>>,
        <<"tests-once", Cardinality(T) = Len(ls)>>,
        <<"lines", \A k \in DOMAIN ls : CASE ls[k].tail = "OK" -> ls[k].head = "PASS"
                                          [] ls[k].tail = "NOK" -> ls[k].head \in {"ERROR", "WARNING", "IGNORE"}
                                          [] OTHER -> ls[k].tail = "NOT EXECUTED" /\ ls[k].head = "ERROR">>})
       \cup {"test:" \o x[1] : x \in {x \in Known(c, f, o.day) : x[1] \notin T \/ Of(x[1]).tail # (IF x[2] THEN "OK" ELSE "NOK")}}
       \cup {"not-run:" \o t : t \in {t \in T : (Of(t).tail = "NOT EXECUTED") # (t \in NotRun(c, f))}}

(* ------------------------------- the commands ---------------------------- *)
Ext(b, x) == LET l == Len(b) IN
    "h/" \o (IF l >= 4 /\ SubSeq(b, l - 3, l) = ".xml" THEN SubSeq(b, 1, l - 4) \o x \o ".xml" ELSE b \o x)
Target(c, k) == Ext(Plain(c.ins[k]), IF k = 2 /\ Plain(c.ins[1]) = Plain(c.ins[2]) THEN "_harmonized_2" ELSE "_harmonized")
Written(c) == IF c.op = "harm" THEN {Target(c, 1), Target(c, 2)} ELSE IF c.opt THEN {c.out} ELSE {}
Impossible(c, fs) == (c.op = "merge" /\ Conflict(fs, c.ins)) \/ (SetOf(c) /\ (Conflict(fs, c.ins) \/ Conflict(fs, c.second)))
Refused(c, fs) == Misused(c) \/ Unreadable(c, fs) \/ Impossible(c, fs)

\* o: exc, written (names of the files that changed or appeared), docs (the LGRs written, by name), printed ("", "doc", "text"), doc, num, ...
RefusedFails(c, o) == Failing({
    <<"refused-but-wrote", o.written = <<>>>>,
    <<"refused-but-printed", o.printed # "doc" /\ (c.op = "check" => o.verdict \in {"", "FAIL"})>>})
AcceptedFails(c, fs, o) ==
    IF o.exc # "" THEN {"raised " \o o.exc}
    ELSE LET A == Doc(fs, c.ins[1])
             num == <<fs[c.ins[1]].num, IF Len(c.second) = 1 THEN fs[c.second[1]].num ELSE fs[c.ins[1]].num>>
         IN Failing({<<"files-written", Rng(o.written) \subseteq Written(c) /\ \A n \in Written(c) : \E k \in DOMAIN o.docs : o.docs[k].n = n>>,
                     <<"printed", o.printed = IF c.op \in {"harm", "diff", "check"} THEN "text" ELSE IF c.opt THEN "" ELSE "doc">>})
            \cup (IF o.printed # (IF c.op \in {"harm", "diff", "check"} THEN "text" ELSE IF c.opt THEN "" ELSE "doc")
                     \/ ~\A n \in Written(c) : \E k \in DOMAIN o.docs : o.docs[k].n = n THEN {}
                  ELSE LET Wrote(n) == o.docs[CHOOSE k \in DOMAIN o.docs : o.docs[k].n = n]
                           O == IF c.opt THEN Wrote(c.out) ELSE [doc |-> o.doc, num |-> o.num] IN
                  CASE c.op = "dump" -> DumpFails(A, O.doc)
                    [] c.op = "populate" -> PopulateFails(A, O.doc)
                    [] c.op = "union" -> LET B == Doc(fs, c.second[1]) IN Mg!UnionFails(A, B, O.doc) \cup Mg!PeriodFails(num, O.num) \cup Mg!TextFails(A, B, O.doc) \cup Mg!OneSided(A, B, O.doc)
                    [] c.op = "inter" -> LET B == Doc(fs, c.second[1]) IN Mg!InterFails(A, B, O.doc) \cup Mg!PeriodFails(num, O.num) \cup Mg!TextFails(A, B, O.doc)
                    [] c.op = "diff" -> IF SetOf(c) THEN SetReportFails(c, fs, o) ELSE ReportFails(A, Doc(fs, c.second[1]), c.full, o.report)
                    [] c.op = "merge" -> MergedFails(fs, o.sets[1].ord, [o.sets[1] EXCEPT !.doc = O.doc, !.num = O.num])
                    [] c.op = "harm" -> HarmFails(A, Doc(fs, c.ins[2]), [k \in 1..(Len(c.ins) - 2) |-> Doc(fs, c.ins[k + 2])],
                                                  Wrote(Target(c, 1)).doc, Wrote(Target(c, 2)).doc, o.review)
                    [] c.op = "check" -> CheckFails(c, fs[c.ins[1]], o)
                    [] OTHER -> ImportFails(fs[c.ins[1]].ls, O.doc))

StepFails(c, fs, o) == IF Refused(c, fs) THEN RefusedFails(c, o) ELSE AcceptedFails(c, fs, o)
\* the folder afterwards, as the output says
File(d) == [k |-> "lgr", d |-> d.doc, num |-> d.num, valid |-> d.valid]
After(c, fs, o) ==
    IF Refused(c, fs) THEN fs
    ELSE LET new == {d \in Rng(o.docs) : d.n \in Written(c)} \cup (IF ~c.opt /\ c.out # "" THEN {[n |-> c.out, doc |-> o.doc, num |-> o.num, valid |-> o.valid]} ELSE {})
             N == {d.n : d \in new}
         IN [n \in DOMAIN fs \cup N |-> IF n \in N THEN File(CHOOSE d \in new : d.n = n) ELSE fs[n]]
=============================================================================
