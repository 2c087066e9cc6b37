------------------------------- MODULE Review -------------------------------
(* Review of an IDN table A against a reference LGR B.  Each section of the   *)
(* report is the image of the two LGRs under a decision table.               *)
EXTENDS Lgr, Tags

Severity(r) == CASE r = "MATCH" -> 0 [] r = "SUBSET" -> 1 [] r = "NOTE" -> 2 [] r = "MANUAL CHECK" -> 3 [] r = "REVIEW" -> 4
Worst(S) == IF S = {} THEN "MATCH" ELSE CHOOSE r \in S : \A q \in S : Severity(q) <= Severity(r)
ByLex(s) == \A k \in 1..(Len(s) - 1) : LexLess(s[k], s[k + 1])
Times(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Rng(s) : Times(s, x) = Times(t, x)

Cps(L) == {L.chars[k].cp : k \in DOMAIN L.chars}
Entry(L, cp) == L.chars[CHOOSE k \in DOMAIN L.chars : L.chars[k].cp = cp]
Single(L) == {L.chars[k].cp[1] : k \in {j \in DOMAIN L.chars : Len(L.chars[j].cp) = 1}}

(* ------------------------------ repertoire ------------------------------- *)
\* tags that start with sc: name scripts and are not compared
OwnTags(e, sc) == {t \in Rng(e.tags) : t \notin sc}
TagResult(a, b, sc) ==
    IF OwnTags(b, sc) \ OwnTags(a, sc) # {} THEN "REVIEW"
    ELSE IF OwnTags(a, sc) \ OwnTags(b, sc) # {} THEN "NOTE" ELSE "MATCH"
RuleResult(a, b) ==
    IF a.when = b.when /\ a.nwhen = b.nwhen THEN "MATCH"
    ELSE IF b.when = "" /\ b.nwhen = "" THEN "NOTE" ELSE "REVIEW"
CpRemarks(t, r) ==
    CASE t = "MATCH" /\ r = "MATCH" -> {"Matches code point (including tags, context rule)"}
      [] t = "NOTE" /\ r = "MATCH" -> {"Tags not required in Reference LGR"}
      [] t = "REVIEW" /\ r = "MATCH" -> {"Tags do not match"}
      [] t = "MATCH" /\ r = "NOTE" -> {"Rules not required in Reference LGR"}
      [] t = "NOTE" /\ r = "NOTE" -> {"Tags not required in Reference LGR\nRules not required in Reference LGR"}
      [] t \in {"MATCH", "NOTE"} /\ r = "REVIEW" -> {"Rules do not match"}
      [] t = "REVIEW" /\ r = "NOTE" -> {"Tags do not match", "Tags do not match\nRules do not match"}
      [] t = "REVIEW" /\ r = "REVIEW" -> {"Tags do not match\nRules do not match"}
CpRow(A, B, x, sc) ==
    IF x.cp \notin Cps(A) THEN ~x.idn /\ x.ref /\ x.result = "SUBSET" /\ x.remark = "Match as a subset of repertoire"
    ELSE IF x.cp \notin Cps(B)
    THEN x.idn /\ ~x.ref /\ x.result = "MANUAL CHECK" /\ x.remark = "The code point only exists in the IDN Table but not in the reference LGR"
    ELSE LET a == Entry(A, x.cp)
             b == Entry(B, x.cp)
             t == TagResult(a, b, sc)
             r == RuleResult(a, b)
         IN x.idn /\ x.ref /\ x.result = Worst({t, r}) /\ x.remark \in CpRemarks(t, r)
\* code points of the table that the reference only has within a sequence
InSequence(A, B) == {<<<<x>>, B.chars[k].cp>> : <<x, k>> \in {<<y, j>> \in Single(A) \X DOMAIN B.chars :
                        y \notin Single(B) /\ Len(B.chars[j].cp) > 1 /\ y \in Rng(B.chars[j].cp)}}
RepertoireFails(A, B, o, sc) == Failing({
    <<"cp-each-once", Map(o.cps, LAMBDA x : x.cp) = <<>> \/ ByLex(Map(o.cps, LAMBDA x : x.cp))>>,
    <<"cp-all", {o.cps[k].cp : k \in DOMAIN o.cps} = Cps(A) \cup Cps(B)>>,
    <<"cp-result", \A k \in DOMAIN o.cps : o.cps[k].cp \in Cps(A) \cup Cps(B) => CpRow(A, B, o.cps[k], sc)>>,
    <<"cp-in-sequences", Rng(o.inseq) = InSequence(A, B) /\ NoDup(o.inseq)>>})

(* ----------------------------- variant sets ------------------------------ *)
VarsTo(L, x, y) == IF x \in Cps(L) THEN Filter(Entry(L, x).vars, LAMBDA v : v.cp = y) ELSE <<>>
Related(L, x, y) == VarsTo(L, x, y) # <<>> \/ VarsTo(L, y, x) # <<>>
\* where the relation is symmetric and transitive, the class of x
ClassOf(L, x) == {x} \cup {v.cp : v \in Rng(Entry(L, x).vars)}
Sets(L) == {S \in {ClassOf(L, x) : x \in Cps(L)} : Cardinality(S) > 1}
Comparable(S, T) == LexMin(S) = LexMin(T) \/ S \subseteq T \/ T \subseteq S

Order == <<"activated", "optionally-activated", "allocatable", "optionally-allocatable", "blocked">>
Rank(t) == IF \E k \in DOMAIN Order : Order[k] = t THEN CHOOSE k \in DOMAIN Order : Order[k] = t ELSE 0
Cond(vs, kind) == Filter(vs, LAMBDA v : CASE kind = "when" -> v.when # "" [] kind = "not-when" -> v.nwhen # "" [] OTHER -> v.when = "" /\ v.nwhen = "")
CondName(vs, kind) == LET c == Cond(vs, kind) IN IF c = <<>> THEN "" ELSE IF kind = "when" THEN c[1].when ELSE c[1].nwhen
CondType(vs, kind) == LET c == Cond(vs, kind) IN IF c = <<>> THEN "absent" ELSE c[1].type
Kinds == {"when", "not-when", "none"}
RuleCheck(a, b) ==
    LET aw == CondName(a, "when") an == CondName(a, "not-when") bw == CondName(b, "when") bn == CondName(b, "not-when") IN
    IF aw = bw /\ an = bn THEN "same"
    ELSE IF (aw # "" /\ an # "") \/ (bw # "" /\ bn # "") THEN "different"
    ELSE IF bw = "" /\ bn = "" THEN "less"
    ELSE IF aw = "" /\ an = "" THEN "missing" ELSE "different"
\* types are compared where both have a variant under the same kind of condition
TypeCheck(a, b) ==
    LET K == {k \in Kinds : CondType(a, k) # "absent" /\ CondType(b, k) # "absent"}
        rel(k) == LET x == CondType(a, k) y == CondType(b, k) IN
                  IF Rank(x) = 0 \/ Rank(y) = 0 THEN "unknown" ELSE IF Rank(x) < Rank(y) THEN "less" ELSE IF Rank(x) = Rank(y) THEN "equal" ELSE "more"
        R == {rel(k) : k \in K}
    IN IF \A k \in Kinds : CondType(a, k) = CondType(b, k) THEN {"same"}
       ELSE IF K = {} THEN {"none"}
       ELSE IF "unknown" \in R \/ R = {"less", "more"} THEN {"unknown"}
       ELSE IF "equal" \in R THEN {"less", "more", "same", "unknown"}     \* not determined
       ELSE R
Less == "Variant type in the IDN Table is less conservative compared to the Ref. LGR"
Cond1 == "IDN Table variant generation is less conservative as it only applies with some conditions"
\* both have the variant: a and b are the variants in one direction
Compared(a, b) == UNION {
    LET r == RuleCheck(a, b) IN
    IF r = "less" THEN {<<"REVIEW", IF t = "less" THEN Cond1 \o "\n" \o Less ELSE IF t = "unknown" THEN Cond1 \o "\nUnknown variant type" ELSE Cond1>>}
    ELSE IF t = "less" THEN {<<"REVIEW", Less>>}
    ELSE IF t = "unknown" THEN {<<"REVIEW", "Unknown variant type">>}
    ELSE IF r = "missing" THEN {<<"MANUAL CHECK", "Variant condition rules are mismatched. The IDN Table misses the rule. If the rule is not needed for the proper variant index calculation, then this is ok">>}
    ELSE IF r = "different" THEN {<<"MANUAL CHECK", "Variant contextual rules are different">>}
    ELSE IF t = "more" THEN {<<"NOTE", "Variant types are mismatched. IDN Table is more conservative compared to the Reference LGR">>}
    ELSE {<<"MATCH", "Exact match (including type, conditional variant rule)">>}
    : t \in TypeCheck(a, b)}

Types(vs) == Map(Filter(vs, LAMBDA v : v.type # ""), LAMBDA v : v.type)
\* the reference set has a sequence that shares a code point with the table
RECURSIVE LexSorted(_)
LexSorted(S) == IF S = {} THEN <<>> ELSE LET m == LexMin(S) IN <<m>> \o LexSorted(S \ {m})
Missing(A, idn, ref) ==
    LET used == UNION {Rng(cp) : cp \in Cps(A)}
        c == {cp \in ref : Len(cp) > 1 /\ Rng(cp) \cap used # {}}
    IN IF idn # {} \/ c = {} THEN <<>> ELSE LexMin(c)
RelevantCps(A, idn, ref) == {cp \in idn \cup ref : cp \in Cps(A)} \cup
    LET m == Missing(A, idn, ref) IN {<<m[k]>> : k \in {j \in DOMAIN m : <<m[j]>> \in Cps(A)}}

VarRow(A, B, r, x) ==
    LET idn == Rng(r.idn) ref == Rng(r.ref) m == Missing(A, idn, ref)
        fa == VarsTo(A, x.src, x.dst) ra == VarsTo(A, x.dst, x.src)
        fb == VarsTo(B, x.src, x.dst) rb == VarsTo(B, x.dst, x.src)
        suffix == IF m = <<>> THEN "" ELSE ".\nThe sequence \"" \o r.seqtext \o "\" may be missing."
        out(f, g) == IF idn = {} THEN {<<"REVIEW", "Variant set exists in the reference LGR">>}
                     ELSE IF ref = {} THEN {<<"MANUAL CHECK", "Variant set only exists in the IDN Table">>}
                     ELSE IF fa = <<>> THEN IF x.src \in Cps(A) /\ x.dst \in Cps(A) THEN {<<"REVIEW", "Variant member exists in the reference LGR">>}
                                            ELSE {<<"NOTE", "Not applicable">>}
                     ELSE IF fb = <<>> THEN {<<"MANUAL CHECK", "Variant member exists in IDN Table but not in the reference LGR">>}
                     ELSE Compared(f, g)
    IN Failing({<<"var-result", \E q \in out(fa, fb) : x.fwd = <<q[1], q[2] \o suffix>>>>,
                <<"var-reverse-result", \E q \in out(ra, rb) : x.rev = <<q[1], q[2] \o suffix>>>>,
                <<"var-types", SameBag(x.types[1], Types(fa)) /\ SameBag(x.types[2], Types(fb))
                               /\ SameBag(x.types[3], Types(ra)) /\ SameBag(x.types[4], Types(rb))>>,
                <<"var-symmetric", x.sym = ((fa = <<>> \/ SameBag(Types(fa), Types(ra))) /\ (fb = <<>> \/ SameBag(Types(fb), Types(rb))))>>,
                <<"var-has-reverse", x.reverse = (ra # <<>> \/ rb # <<>>)>>,
                <<"var-destination", (fa # <<>> => x.inidn) /\ (x.inidn => x.dst \in Cps(A))
                                     /\ (fb # <<>> => x.inref) /\ (x.inref => x.dst \in Cps(B))>>})
\* one row per pair of related code points (a code point and itself included), at least one of them in the sets
VarPairs(A, B, U) == {<<x, y>> \in U \X (Cps(A) \cup Cps(B)) :
    (Related(A, x, y) \/ Related(B, x, y)) /\ (x = y \/ y \notin U \/ LexLess(x, y))}
SetFails(A, B, r) ==
    LET idn == Rng(r.idn) ref == Rng(r.ref) U == idn \cup ref
        pairs == Map(r.rows, LAMBDA x : <<x.src, x.dst>>)
    IN Failing({
        <<"var-set-known", (idn = {} \/ idn \in Sets(A)) /\ (ref = {} \/ ref \in Sets(B)) /\ U # {}>>,
        <<"var-set-sorted", ByLex(r.idn) /\ ByLex(r.ref) /\ ByLex(r.relevant)>>,
        <<"var-set-pairing", idn = {} \/ ref = {} \/ Comparable(idn, ref)>>,
        <<"var-set-relevant", Rng(r.relevant) = RelevantCps(A, idn, ref)>>,
        <<"var-set-checks", r.checks = IF idn = {} THEN <<"", "">> ELSE <<"yes", "yes">>>>,
        <<"var-rows", Rng(pairs) = VarPairs(A, B, U) /\ NoDup(pairs)>>,
        <<"var-rows-order", \A k \in 1..(Len(r.rows) - 1) : ~LexLess(r.rows[k + 1].dst, r.rows[k].dst)>>})
       \cup UNION {VarRow(A, B, r, r.rows[k]) : k \in DOMAIN r.rows}
VariantFails(A, B, o) ==
    LET R == o.sets
        alone(S, isIdn) == \E k \in DOMAIN R : IF isIdn THEN Rng(R[k].idn) = S /\ R[k].ref = <<>> ELSE Rng(R[k].ref) = S /\ R[k].idn = <<>>
    IN UNION {SetFails(A, B, R[k]) : k \in DOMAIN R} \cup Failing({
        <<"var-set-each-once", \A S \in Sets(A) : Cardinality({k \in DOMAIN R : Rng(R[k].idn) = S}) = 1>>,
        <<"var-set-reference", \A S \in Sets(B) : (\E k \in DOMAIN R : Rng(R[k].ref) = S) \/ RelevantCps(A, {}, S) = {}>>,
        <<"var-set-alone", \A S \in Sets(A) : \A T \in Sets(B) : alone(S, TRUE) /\ alone(T, FALSE) =>
            ~Comparable(S, T) \/ (\E k \in DOMAIN R : R[k].idn # <<>> /\ R[k].ref # <<>> /\ (Comparable(Rng(R[k].idn), T) \/ Comparable(S, Rng(R[k].ref))))>>,
        <<"var-additional", LET S == UNION Sets(A) IN
            Rng(o.additional) = {cp \in Cps(A) : cp \notin S /\ cp \notin Cps(B)} /\ NoDup(o.additional)>>})

(* -------------------------------- classes -------------------------------- *)
ClassNames(L) == {L.classes[k].name : k \in DOMAIN L.classes}
Members(L, n) ==
    IF n \in ClassNames(L) THEN {x \in Single(L) : InClass(L, ClassNamed(L, n).def, x)} ELSE {}
ClassResult(a, b, RA, RB) ==
    IF a = b THEN <<"MATCH", "Classes and their members are matched">>
    ELSE IF a = {} THEN <<"MANUAL CHECK", "Mismatch class (class does not exist in IDN Table; check for different class names)">>
    ELSE IF b = {} /\ a \cap RB # {} THEN <<"MANUAL CHECK", "Mismatch class (class does not exist in ref. LGR; check for different class names)">>
    ELSE IF b = {} THEN <<"MANUAL CHECK", "Mismatch class with only additional code points.">>
    ELSE LET extra == (a \ b) \cap RB # {}
             lack == (b \ a) \cap RA # {}
             E1 == "Mismatch class members (extra member(s) in IDN Table)"
             E2 == "Mismatch class members (missing member(s) in IDN Table)"
         IN IF extra /\ lack THEN <<"REVIEW", E1 \o "\n" \o E2>>
            ELSE IF extra THEN <<"REVIEW", E1>>
            ELSE IF lack THEN <<"REVIEW", E2>>
            ELSE IF a \ b # {} THEN <<"MANUAL CHECK", "Mismatch class members (extra member(s) in IDN Table which are not in Ref. LGR repertoire)">>
            ELSE <<"SUBSET", "Extra members in Ref. LGR not in IDN Table">>
\* a class without members in either repertoire is not shown
ClassFails(A, B, o) ==
    LET names == Map(o.classes, LAMBDA x : x.name)
        shown == {n \in ClassNames(A) \cup ClassNames(B) : Members(A, n) # {} \/ Members(B, n) \cap Single(A) # {}}
    IN Failing({
        <<"class-each-once", Rng(names) = shown /\ NoDup(names)>>,
        <<"class-members", \A k \in DOMAIN o.classes : LET x == o.classes[k] IN
            Rng(x.idn) = Members(A, x.name) /\ Rng(x.ref) = Members(B, x.name)>>,
        <<"class-result", \A k \in DOMAIN o.classes : LET x == o.classes[k] IN
            <<x.result, x.remark>> = ClassResult(Members(A, x.name), Members(B, x.name), Single(A), Single(B))>>})

(* --------------------------------- rules --------------------------------- *)
RuleNames(L) == {L.rules[k].name : k \in DOMAIN L.rules}
Context(L, n) == {L.chars[k].cp : k \in {j \in DOMAIN L.chars : n \in {L.chars[j].when, L.chars[j].nwhen}}}
RECURSIVE RefsIn(_)
RefsIn(x) == (IF x.t = "ref" THEN {<<"rule", x.name>>} ELSE IF x.t = "class" THEN RefsIn(x.cls)
              ELSE IF x.t = "cref" THEN {<<"class", x.name>>} ELSE {})
             \cup (IF "kids" \in DOMAIN x THEN UNION {RefsIn(x.kids[k]) : k \in DOMAIN x.kids} ELSE {})
RefsOf(kids) == UNION {RefsIn(kids[k]) : k \in DOMAIN kids}
\* two rule bodies that say the same about every label over X of at most n code points (names have the same meaning)
Labels(X, n) == UNION {[1..k -> X] : k \in 1..n}
SameRule(L, p, q, X, n) ==
    IF RefsOf(p) # RefsOf(q) \/ HasAnchor(L, p) # HasAnchor(L, q) THEN FALSE
    ELSE \A lab \in Labels(X, n) :
         IF HasAnchor(L, p) THEN \A k \in 0..(Len(lab) - 1) : MatchesContext(L, p, lab, <<lab[k + 1]>>, k) = MatchesContext(L, q, lab, <<lab[k + 1]>>, k)
         ELSE MatchesLabel(L, p, lab) = MatchesLabel(L, q, lab)
Check == <<"MANUAL CHECK", "Check the content of the rule">>
Exact == <<"MATCH", "Exact Match (matched names and content)">>
WleRow(A, B, x, X) ==
    LET a == x.name \in RuleNames(A) b == x.name \in RuleNames(B) res == <<x.result, x.remark>> IN
    x.idn = a /\ x.ref = b /\
    IF ~a THEN res = IF Context(B, x.name) # {} /\ Context(B, x.name) \cap Cps(A) = {}
                     THEN <<"SUBSET", "Match as a subset (for the rules missing in IDN Table, applicable code points in Ref. LGR are not in IDN Table)">>
                     ELSE <<"MANUAL CHECK", "Mismatch (WLE rule only exists in Ref. LGR)">>
    ELSE IF ~b THEN res = <<"MANUAL CHECK", "Mismatch (WLE rule only exists in IDN Table)">>
    ELSE IF Context(A, x.name) # Context(B, x.name) THEN res = Check
    ELSE LET p == RuleNamed(A, x.name).kids q == RuleNamed(B, x.name).kids IN
         IF p = q THEN res = Exact ELSE res = Check \/ (res = Exact /\ SameRule(A, p, q, X, 3))
NoRule(e) == e.when = "" /\ e.nwhen = ""
WleFails(A, B, o, X) == Failing({
    <<"rule-each-once", {o.wle[k].name : k \in DOMAIN o.wle} = RuleNames(A) \cup RuleNames(B) /\ NoDup(Map(o.wle, LAMBDA x : x.name))>>,
    <<"rule-result", \A k \in DOMAIN o.wle : o.wle[k].name \in RuleNames(A) \cup RuleNames(B) => WleRow(A, B, o.wle[k], X)>>,
    <<"rule-additional", o.wleadd = LexSorted({cp \in Cps(A) : NoRule(Entry(A, cp)) /\ cp \notin Cps(B)})>>})

\* the general rules: applicable, and whether the table refuses the labels that test them
Digits(L, u) == Single(L) \cap Rng(u.digits)
ReachOnly(L) == [L EXCEPT !.chars = Map(@, LAMBDA e : [e EXCEPT !.when = "", !.nwhen = ""])]
Spelt(L, lab) == Partitions(ReachOnly(L), lab, 0) # {}
\* keys: the languages and scripts of the table, those of the reference where the table has none
RightToLeft(A, keys, u) == u.rtlscript \/ (keys = <<>> /\ Single(A) \cap Rng(u.rtl) # {})
Applicable(A, keys, u) == [
    combining_mark |-> Single(A) \cap Rng(u.marks) # {},
    consecutive_hyphens |-> 45 \in Single(A),
    rtl |-> RightToLeft(A, keys, u) /\ Digits(A, u) # {},
    digits_set |-> Cardinality(Digits(A, u)) > 10,
    japanese_contextj |-> 12539 \in Single(A)]
GeneralFails(A, keys, u, g, labels) == UNION {
    LET t == labels[n]
        app == Applicable(A, keys, u)[n]
        lost == {k \in DOMAIN t : ~Spelt(A, t[k])}
        open == {k \in DOMAIN t : k \notin lost /\ Eligible(A, t[k], FALSE).ok}
        exists == IF ~app \/ t = <<>> THEN {""}
                  ELSE (IF lost # {} THEN {""} ELSE {}) \cup (IF open # {} THEN {"no"} ELSE {}) \cup (IF lost \cup open = {} THEN {"yes"} ELSE {})
    IN Failing({<<"general-" \o n, g[n].applicable = app /\ g[n].exists \in exists>>}) : n \in DOMAIN g}

(* -------------------------------- actions -------------------------------- *)
ActKey(a) == <<a.disp, a.match, a.nmatch, a.vk, Rng(a.vs)>>
ActName(side, n, com) == side \o "-" \o ToString(n) \o (IF com = "" THEN "" ELSE " (" \o com \o ")")
ActRows(A, B) ==
    LET ka == Map(A.actions, ActKey) kb == Map(B.actions, ActKey)
        fromA == [k \in DOMAIN ka |-> LET m == ka[k] \in Rng(kb) IN
                    <<ActName("IDN Table", k, A.actions[k].com), TRUE, m, IF m THEN "MATCH" ELSE "MANUAL CHECK",
                      IF m THEN "Exact Match (action name and content are the same)" ELSE "Mismatch (additional action)">>]
        fromB == [k \in DOMAIN kb |-> <<ActName("Ref. LGR", k, B.actions[k].com), FALSE, TRUE, "MANUAL CHECK", "Mismatch (missing action)">>]
        lost == SelectSeq([k \in DOMAIN kb |-> <<kb[k], fromB[k]>>], LAMBDA p : p[1] \notin Rng(ka))
    IN fromA \o Map(lost, LAMBDA p : p[2])
ActionFails(A, B, o) ==
    LET ka == Map(A.actions, ActKey) kb == Map(B.actions, ActKey)
        seq == A.actions # <<>> /\ Filter(ka, LAMBDA x : x \in Rng(kb)) = Filter(kb, LAMBDA x : x \in Rng(ka))
    IN Failing({<<"actions", o.actions = ActRows(A, B)>>,
                <<"action-sequence", o.sequence = IF seq THEN "MATCH" ELSE "MANUAL CHECK">>})

(* ----------------------------- language tags ----------------------------- *)
Known(t) == t.lang # ""
TagResults(a, b) ==
    IF a.text = b.text THEN {<<"MATCH", "Exact match">>}
    ELSE IF ~Known(a) THEN {<<"MANUAL CHECK", "Language tag may be included in the comment">>}
    ELSE IF TagLanguage(a) = TagLanguage(b) /\ TagScript(a, FALSE) = TagScript(b, FALSE) /\ Known(b) THEN {<<"MATCH", "Exact match">>}
    ELSE IF TagLanguage(a) # "" /\ TagLanguage(a) = TagLanguage(b)
         THEN {<<"MATCH", IF a.script # "" /\ a.script = a.default THEN "Consider minimizing the tag as per the RFC5646 and IANA subtag registry" ELSE "Language match">>}
    ELSE IF a.default # "" /\ TagScript(b, FALSE) = a.default
         THEN {<<"MATCH", "The language tag in IDN Table relevant to the script tag in Reference LGR">>}
    ELSE {<<"REVIEW", "The language tag in IDN Table and Reference LGR are mismatched">>}
TagFails(la, lb, o) ==
    LET rows == o.tags IN
    IF la = <<>>
    THEN Failing({<<"tag-none", Len(rows) = 1 /\ rows[1].tag = "-"
                     /\ \A x \in Rng(rows[1].cmp) : x.result = "MANUAL CHECK" /\ x.remark = "Language tag may be included in the comment">>,
                  <<"tag-references", SameBag(Map(rows[1].cmp, LAMBDA x : x.tag), Map(lb, LAMBDA t : t.text))>>})
    ELSE Failing({<<"tag-each-once", SameBag(Map(rows, LAMBDA x : x.tag), Map(la, LAMBDA t : t.text))>>,
                  <<"tag-references", \A x \in Rng(rows) : SameBag(Map(x.cmp, LAMBDA y : y.tag), Map(lb, LAMBDA t : t.text))>>,
                  <<"tag-result", \A x \in Rng(rows) : \A y \in Rng(x.cmp) : \A a \in Rng(la) : \A b \in Rng(lb) :
                      a.text = x.tag /\ b.text = y.tag => <<y.result, y.remark>> \in TagResults(a, b)>>})

(* -------------------------------- summary -------------------------------- *)
\* the rows of a section, <<result, remark>>, against its summary
SummaryFails(name, rows, s) ==
    LET rem == {rows[k][2] : k \in DOMAIN rows} IN Failing({
        <<"summary-overall-" \o name, s.overall = Worst({rows[k][1] : k \in DOMAIN rows})>>,
        <<"summary-counts-" \o name, Rng(s.results) = {<<(CHOOSE r \in Rng(rows) : r[2] = m)[1], m, Cardinality({k \in DOMAIN rows : rows[k][2] = m})>> : m \in rem}
                                     /\ Len(s.results) = Cardinality(rem)>>})
Rows(o) == [
    language_tag |-> FlatSeq(Map(o.tags, LAMBDA x : Map(x.cmp, LAMBDA y : <<y.result, y.remark>>))),
    repertoire |-> Map(o.cps, LAMBDA x : <<x.result, x.remark>>),
    variant_sets |-> FlatSeq(Map(o.sets, LAMBDA r : Map(r.rows, LAMBDA x : x.fwd) \o Map(r.rows, LAMBDA x : x.rev))),
    classes |-> Map(o.classes, LAMBDA x : <<x.result, x.remark>>),
    wle |-> Map(o.wle, LAMBDA x : <<x.result, x.remark>>),
    actions |-> Map(o.actions, LAMBDA x : <<x[4], x[5]>>)]
\* a table compared with itself
\* (several tags also differ from each other)
SelfFails(o) == Failing({<<"self-language-tag", \A x \in Rng(o.tags) : x.tag # "-" => \E y \in Rng(x.cmp) : y.tag = x.tag /\ y.result = "MATCH">>}) \cup UNION {Failing({<<"self-" \o n, \A x \in Rng(Rows(o)[n]) : x[1] = "MATCH">>}) : n \in DOMAIN Rows(o) \ {"language_tag"}}
             \cup Failing({<<"self-sequence", o.actions = <<>> \/ o.sequence = "MATCH">>, <<"self-additional", o.additional = <<>> /\ o.wleadd = <<>> /\ o.inseq = <<>>>>})

(* -------------------- review of a table without reference ---------------- *)
CoreFails(A, keys, u, o, labels) ==
    LET bad == {cp \in Cps(A) : ~(Rng(cp) \subseteq Rng(u.pvalid))} IN
    GeneralFails(A, keys, u, o.general, labels) \cup Failing({
        <<"core-repertoire", SameBag(o.cps, Map(A.chars, LAMBDA e : e.cp))>>,
        <<"core-valid", o.pvalid = Cardinality(Cps(A)) - Cardinality(bad) /\ o.invalid = Cardinality(bad)>>,
        <<"core-digits", o.digits = (Cardinality(Digits(A, u)) > 10)>>})
=============================================================================
