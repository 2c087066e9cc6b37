------------------------------ MODULE Compare -------------------------------
(* What two LGR documents have in common and what distinguishes them.  A     *)
(* definition is compared by its meaning: the names of the rules and classes *)
(* it uses are replaced by their definitions, the reference identifiers by   *)
(* the references.  So renaming is not seen, and using the wrong definition  *)
(* is.                                                                       *)
EXTENDS Base

Node(tag, at, tx, kids) == [tag |-> tag, at |-> at, tx |-> tx, kids |-> kids]
Absent == Node("none", {}, <<>>, <<>>)
Undefined == Node("undefined", {}, <<>>, <<>>)
Attr(t, k) == LET s == Filter(t.at, LAMBDA a : a[1] = k) IN IF s = <<>> THEN "" ELSE s[1][2]
Sort(t) == IF t.tag \in {"rule", "action"} THEN t.tag ELSE "class"
Decls(D, sort) == Filter(D.decls, LAMBDA t : Sort(t) = sort)
Names(D, sort) == {Attr(d, "name") : d \in Rng(Decls(D, sort))}
Lookup(D, sort, n) == LET s == Filter(Decls(D, sort), LAMBDA t : Attr(t, "name") = n) IN IF s = <<>> THEN [tag |-> ""] ELSE s[1]

RefValue(D, id) == LET s == Filter(D.refs, LAMBDA x : x.id = id) IN IF s = <<>> THEN "undefined " \o id ELSE s[1].value
RefValues(D, ids) == {RefValue(D, ids[k]) : k \in DOMAIN ids}
RefAttr(D, t) == {<<"reference", v>> : v \in RefValues(D, t.refs)}

RECURSIVE Mean(_, _)
Mean(D, t) ==
    IF t.tag = "" THEN Undefined
    ELSE IF Attr(t, "by-ref") # ""
         THEN Node(t.tag, {a \in Rng(t.at) : a[1] \notin {"name", "by-ref", "ref"}} \cup RefAttr(D, t), <<>>,
                   <<Mean(D, Lookup(D, Sort(t), Attr(t, "by-ref")))>>)
         ELSE Node(t.tag, {a \in Rng(t.at) : a[1] \notin {"name", "ref"}} \cup RefAttr(D, t), t.tx, Map(t.kids, LAMBDA k : Mean(D, k)))
\* the meanings of the named rules / classes of D
Table(D, sort) == TLCEval([n \in Names(D, sort) |-> Mean(D, Lookup(D, sort, n))])
Tables(D) == [rule |-> Table(D, "rule"), class |-> Table(D, "class")]
Rule(T, n) == IF n = "" THEN Absent ELSE IF n \in DOMAIN T.rule THEN T.rule[n] ELSE Undefined
Meanings(T, sort) == {T[sort][n] : n \in DOMAIN T[sort]}

\* an action: what it says, without comment and references
ActionMean(T, t) == [disp |-> Attr(t, "disp"), match |-> Rule(T, Attr(t, "match")), nmatch |-> Rule(T, Attr(t, "not-match")),
                     vars |-> {<<t.types[k][1], Rng(t.types[k][2])>> : k \in DOMAIN t.types}]
ActionName(t) == <<Attr(t, "match"), Attr(t, "not-match")>>
RECURSIVE Once(_)
Once(s) == IF s = <<>> THEN <<>> ELSE LET r == Once(SubSeq(s, 1, Len(s) - 1)) IN IF s[Len(s)] \in Rng(r) THEN r ELSE Append(r, s[Len(s)])
Actions(D, T) == Map(Decls(D, "action"), LAMBDA t : ActionMean(T, t))

\* the code points and sequences, ranges member by member
Expand(it) == IF it.rng = <<>> THEN {it} ELSE {[it EXCEPT !.cp = <<x>>, !.rng = <<>>] : x \in it.rng[1]..it.rng[2]}
Chars(D) == UNION {Expand(D.items[k]) : k \in DOMAIN D.items}
CharMap(D) == LET C == TLCEval(Chars(D)) IN TLCEval([cp \in {c.cp : c \in C} |-> CHOOSE c \in C : c.cp = cp])
VarKey(T, v) == <<v.cp, Rule(T, v.when), Rule(T, v.nwhen)>>
VarName(v) == <<v.cp, v.when, v.nwhen>>
VarBody(D, v) == <<v.type, RefValues(D, v.refs), v.com>>

Well(D, T) ==   \* every name used is defined, names are unique
    /\ \A sort \in {"rule", "class"} : Cardinality(Names(D, sort)) = Len(Decls(D, sort)) /\ "" \notin Names(D, sort)
    /\ \A sort \in {"rule", "class"} : \A m \in Meanings(T, sort) : m # Undefined
    /\ \A c \in Chars(D) : Undefined \notin {Rule(T, c.when), Rule(T, c.nwhen)}
    /\ \A c \in Chars(D) : \A k \in DOMAIN c.vars : Undefined \notin {Rule(T, c.vars[k].when), Rule(T, c.vars[k].nwhen)}
    /\ \A k \in DOMAIN D.refs : \A j \in DOMAIN D.refs : D.refs[k].id = D.refs[j].id => k = j

Values(D) == {D.refs[k].value : k \in DOMAIN D.refs}
RefComments(D, v) == {D.refs[k].com : k \in {j \in DOMAIN D.refs : D.refs[j].value = v}}

\* a context rule of a code point both have
ContextOK(TA, TB, a, b, TO, o) == LET ma == Rule(TA, a) mb == Rule(TB, b) mo == Rule(TO, o) IN
    IF a = b /\ ma = mb THEN mo = ma
    ELSE IF ma = mb THEN mo \in {ma, Absent}
    ELSE mo = Absent

SameChar(DA, TA, a, DO, TO, o) == \* o says of its code point what a does
    /\ Rng(o.tags) = Rng(a.tags) /\ o.com = a.com
    /\ RefValues(DO, o.refs) = RefValues(DA, a.refs)
    /\ Rule(TO, o.when) = Rule(TA, a.when) /\ Rule(TO, o.nwhen) = Rule(TA, a.nwhen)
    /\ Len(o.vars) = Len(a.vars)
    /\ {<<VarKey(TO, v), VarBody(DO, v)>> : v \in Rng(o.vars)} = {<<VarKey(TA, v), VarBody(DA, v)>> : v \in Rng(a.vars)}

\* ------------------------------------------------------------------ metadata of a combination
Greatest(s) == CHOOSE k \in DOMAIN s : \A j \in DOMAIN s :
    LET x == s[k] y == s[j] IN \A n \in 1..3 : (\A m \in 1..(n - 1) : x[m] = y[m]) => x[n] >= y[n]
Max0(s) == IF s = <<>> THEN 0 ELSE CHOOSE x \in Rng(s) : \A y \in Rng(s) : x >= y
Min0(s) == IF s = <<>> THEN 0 ELSE CHOOSE x \in Rng(s) : \A y \in Rng(s) : x <= y

\* what can be compared: the Unicode version is the greatest one, the validity the period common to all
PeriodFails(num, onum) == Failing({
      <<"unicode-version", onum.uver = num[Greatest(Map(num, LAMBDA x : x.uver))].uver>>,
      <<"validity", onum.vstart = Max0(SelectSeq(Map(num, LAMBDA x : x.vstart), LAMBDA x : x # 0))
                    /\ onum.vend = Min0(SelectSeq(Map(num, LAMBDA x : x.vend), LAMBDA x : x # 0))>>})

\* the version and the description of a combination say what those of its parts say, and nothing of neither
Mentions(s, t) == \E k \in 0..(Len(s) - Len(t)) : SubSeq(s, k + 1, k + Len(t)) = t
InOrder(s, t, u) == t = u \/ \E k \in 0..(Len(s) - Len(t)) : SubSeq(s, k + 1, k + Len(t)) = t /\ Mentions(SubSeq(s, k + Len(t) + 1, Len(s)), u)
Combined(x, y, o) ==
    CASE x = <<>> /\ y = <<>> -> o = <<>>
      [] x = y -> o = x
      [] x # <<>> /\ y # <<>> -> o # <<>> /\ Mentions(o[1], x[1]) /\ Mentions(o[1], y[1]) /\ InOrder(o[1], x[1], y[1])
      [] OTHER -> TRUE
TextFails(A, B, O) ==
    LET a == A.meta b == B.meta o == O.meta IN Failing({
      <<"version", Combined(a.version, b.version, o.version)>>,
      <<"version-comment", a.version = <<>> \/ b.version = <<>> \/ o.version = <<>>
                           \/ (Mentions(o.version[2], a.version[2]) /\ InOrder(o.version[2], a.version[2], b.version[2]))>>,
      <<"description", Combined(a.desc, b.desc, o.desc)>>,
      <<"description-type", (a.desc # <<>> /\ b.desc # <<>> /\ a.desc[2] = b.desc[2] /\ a.desc[2] = "text/html") => o.desc # <<>> /\ o.desc[2] = a.desc[2]>>})
\* of a union: also what only one has
OneSided(A, B, O) == Failing({
    <<"version-lost", \/ A.meta.version # <<>> /\ B.meta.version # <<>>
                      \/ O.meta.version = IF A.meta.version = <<>> THEN B.meta.version ELSE A.meta.version>>,
    <<"description-lost", \/ A.meta.desc # <<>> /\ B.meta.desc # <<>>
                          \/ O.meta.desc = IF A.meta.desc = <<>> THEN B.meta.desc ELSE A.meta.desc>>})

\* ------------------------------------------------------------------ union
UnionFails(A, B, O) ==
    LET TA == TLCEval(Tables(A)) TB == TLCEval(Tables(B)) TO == TLCEval(Tables(O))
        CA == CharMap(A) CB == CharMap(B) CO == CharMap(O)
        Both == DOMAIN CA \cap DOMAIN CB \cap DOMAIN CO
        Keys(T, c) == {VarKey(T, c.vars[k]) : k \in DOMAIN c.vars}
        Bodies(D, T, c, key) == {VarBody(D, c.vars[k]) : k \in {j \in DOMAIN c.vars : VarKey(T, c.vars[j]) = key}}
    IN Failing({
      <<"well-formed", Well(O, TO)>>,
      <<"code-points", DOMAIN CO = DOMAIN CA \cup DOMAIN CB /\ Cardinality(Chars(O)) = Cardinality(DOMAIN CO)>>,
      <<"only-in-first", \A cp \in (DOMAIN CA \ DOMAIN CB) \cap DOMAIN CO : SameChar(A, TA, CA[cp], O, TO, CO[cp])>>,
      <<"only-in-second", \A cp \in (DOMAIN CB \ DOMAIN CA) \cap DOMAIN CO : SameChar(B, TB, CB[cp], O, TO, CO[cp])>>,
      <<"tags", \A cp \in Both : Rng(CO[cp].tags) = Rng(CA[cp].tags) \cup Rng(CB[cp].tags)>>,
      <<"char-references", \A cp \in Both : RefValues(O, CO[cp].refs) = RefValues(A, CA[cp].refs) \cup RefValues(B, CB[cp].refs)>>,
      <<"context-rules", \A cp \in Both : ContextOK(TA, TB, CA[cp].when, CB[cp].when, TO, CO[cp].when)
                                          /\ ContextOK(TA, TB, CA[cp].nwhen, CB[cp].nwhen, TO, CO[cp].nwhen)>>,
      <<"variants", \A cp \in Both : Keys(TO, CO[cp]) = Keys(TA, CA[cp]) \cup Keys(TB, CB[cp])>>,
      <<"variant-content", \A cp \in Both : \A key \in Keys(TO, CO[cp]) :
            Bodies(O, TO, CO[cp], key) \subseteq Bodies(A, TA, CA[cp], key) \cup Bodies(B, TB, CB[cp], key)>>,
      <<"references", Values(O) = Values(A) \cup Values(B)
            /\ \A v \in Values(O) : RefComments(O, v) \subseteq RefComments(A, v) \cup RefComments(B, v)>>,
      <<"languages", Rng(O.meta.langs) = Rng(A.meta.langs) \cup Rng(B.meta.langs) /\ NoDup(O.meta.langs)>>,
      <<"scopes", Rng(O.meta.scopes) = Rng(A.meta.scopes) \cup Rng(B.meta.scopes)>>,
      <<"rules", Meanings(TO, "rule") = Meanings(TA, "rule") \cup Meanings(TB, "rule")>>,
      <<"classes", Meanings(TO, "class") = Meanings(TA, "class") \cup Meanings(TB, "class")>>,
      <<"actions", Once(Actions(O, TO)) = Once(Actions(A, TA) \o Actions(B, TB))>>})

\* ------------------------------------------------------------------ intersection
\* Definitions that only differ by their references may or may not count as the same.
RECURSIVE BareTree(_)
BareTree(t) == [t EXCEPT !.refs = <<>>, !.kids = Map(t.kids, BareTree)]
Bare(D) == [D EXCEPT !.decls = Map(D.decls, BareTree)]
InterFails(A, B, O) ==
    LET FA == TLCEval(Tables(A)) FB == TLCEval(Tables(B)) FO == TLCEval(Tables(O))
        TA == TLCEval(Tables(Bare(A))) TB == TLCEval(Tables(Bare(B))) TO == TLCEval(Tables(Bare(O)))
        CA == CharMap(A) CB == CharMap(B) CO == CharMap(O)
        Both == DOMAIN CA \cap DOMAIN CB \cap DOMAIN CO
        V(c) == {c.vars[k] : k \in DOMAIN c.vars}
        \* pairs of variants that are surely / possibly the same
        Sure(cp) == {p \in V(CA[cp]) \X V(CB[cp]) : VarName(p[1]) = VarName(p[2]) /\ VarKey(FA, p[1]) = VarKey(FB, p[2])}
        Maybe(cp) == {p \in V(CA[cp]) \X V(CB[cp]) : VarKey(TA, p[1]) = VarKey(TB, p[2])}
        SureDef(sort) == {FA[sort][n] : n \in {m \in DOMAIN FA[sort] \cap DOMAIN FB[sort] : FA[sort][m] = FB[sort][m]}}
        Acts(D, T) == {<<ActionMean(T, t), ActionName(t)>> : t \in Rng(Decls(D, "action"))}
        InterContext(a, b, o) == IF a = b /\ Rule(FA, a) = Rule(FB, b) THEN Rule(FO, o) = Rule(FA, a)
                                 ELSE o = "" \/ (Rule(TO, o) = Rule(TA, a) /\ Rule(TA, a) = Rule(TB, b))
    IN Failing({
      <<"well-formed", Well(O, TO)>>,
      <<"code-points", DOMAIN CO = DOMAIN CA \cap DOMAIN CB /\ Cardinality(Chars(O)) = Cardinality(DOMAIN CO)>>,
      <<"tags", \A cp \in Both : Rng(CO[cp].tags) = Rng(CA[cp].tags) \cap Rng(CB[cp].tags)>>,
      <<"char-references", \A cp \in Both : RefValues(O, CO[cp].refs) = RefValues(A, CA[cp].refs) \cap RefValues(B, CB[cp].refs)>>,
      <<"context-rules", \A cp \in Both : InterContext(CA[cp].when, CB[cp].when, CO[cp].when) /\ InterContext(CA[cp].nwhen, CB[cp].nwhen, CO[cp].nwhen)>>,
      <<"variants-kept", \A cp \in Both : \A p \in Sure(cp) : \E v \in V(CO[cp]) : VarKey(TO, v) = VarKey(TA, p[1])>>,
      <<"variants-only", \A cp \in Both : \A v \in V(CO[cp]) : \E p \in Maybe(cp) : VarKey(TO, v) = VarKey(TA, p[1])>>,
      <<"variant-type", \A cp \in Both : \A v \in V(CO[cp]) :
            LET P == {p \in Maybe(cp) : VarKey(TO, v) = VarKey(TA, p[1])} IN
            (P # {} /\ \A p \in P : p[1].type = p[2].type) => \E p \in P : v.type = p[1].type>>,
      <<"references", Values(O) = Values(A) \cap Values(B)
            /\ \A v \in Values(O) : RefComments(O, v) \subseteq RefComments(A, v) \cup RefComments(B, v)>>,
      <<"languages", Rng(O.meta.langs) = Rng(A.meta.langs) \cap Rng(B.meta.langs) /\ NoDup(O.meta.langs)>>,
      <<"scopes", Rng(O.meta.scopes) = Rng(A.meta.scopes) \cap Rng(B.meta.scopes)>>,
      <<"rules", SureDef("rule") \subseteq Meanings(FO, "rule") /\ Meanings(TO, "rule") \subseteq Meanings(TA, "rule") \cap Meanings(TB, "rule")>>,
      <<"classes", SureDef("class") \subseteq Meanings(FO, "class") /\ Meanings(TO, "class") \subseteq Meanings(TA, "class") \cap Meanings(TB, "class")>>,
      <<"actions", /\ {x[1] : x \in Acts(A, FA) \cap Acts(B, FB)} \subseteq Rng(Actions(O, FO))
                   /\ Rng(Actions(O, TO)) \subseteq Rng(Actions(A, TA)) \cap Rng(Actions(B, TB))>>,
      <<"action-order", Once(Actions(O, TO)) = Filter(Once(Actions(A, TA)), LAMBDA x : x \in Rng(Actions(O, TO)))>>})

\* ------------------------------------------------------------------ differences
\* The report is a set of entries: `where` is the code point compared (<<>> for the LGR), `what` the thing that differs,
\* `side` the LGR that has the value ("1", "2"), the value a text or a code point.
E(where, what, side, txt, cp) == [where |-> where, what |-> what, side |-> side, txt |-> txt, cp |-> cp]
Value(where, what, x, y) == IF x = y THEN {} ELSE {E(where, what, "1", x, <<>>), E(where, what, "2", y, <<>>)}
Texts(where, what, X, Y) == {E(where, what, "1", x, <<>>) : x \in X \ Y} \cup {E(where, what, "2", y, <<>>) : y \in Y \ X}
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE Head(s) \o "|" \o Join(Tail(s))
MetaReport(m, n) ==
    LET Pair(what, x, y) ==
          IF x = <<>> /\ y = <<>> THEN {}
          ELSE IF x = <<>> THEN {E(<<>>, "no-" \o what, "1", "", <<>>)}
          ELSE IF y = <<>> THEN {E(<<>>, "no-" \o what, "2", "", <<>>)}
          ELSE Value(<<>>, what, x[1], y[1]) \cup Value(<<>>, IF what = "version" THEN "version comment" ELSE "description type", x[2], y[2])
    IN Pair("version", m.version, n.version) \cup Pair("description", m.desc, n.desc)
       \cup Texts(<<>>, "scopes", {Join(<<x[2], x[1]>>) : x \in Rng(m.scopes)}, {Join(<<x[2], x[1]>>) : x \in Rng(n.scopes)})
       \cup Texts(<<>>, "languages", Rng(m.langs), Rng(n.langs))
       \cup Value(<<>>, "date", m.date, n.date) \cup Value(<<>>, "validity start", m.vstart, n.vstart)
       \cup Value(<<>>, "validity end", m.vend, n.vend) \cup Value(<<>>, "unicode version", m.uver, n.uver)
VarEntry(where, side, v) == E(where, "variants", side, Join(<<v.type, v.when, v.nwhen, v.com>>), v.cp)
CharReport(c, d) ==
    LET V(x) == {[cp |-> v.cp, type |-> v.type, when |-> v.when, nwhen |-> v.nwhen, com |-> v.com] : v \in Rng(x.vars)} IN
    Value(c.cp, "comment", c.com, d.com)
    \cup (IF Rng(c.tags) = Rng(d.tags) THEN {} ELSE {E(c.cp, "tags", "1", t, <<>>) : t \in Rng(c.tags)} \cup {E(c.cp, "tags", "2", t, <<>>) : t \in Rng(d.tags)}
                                                   \cup {E(c.cp, "tags", "", "", <<>>)})
    \cup Value(c.cp, "when", c.when, d.when) \cup Value(c.cp, "not-when", c.nwhen, d.nwhen)
    \cup {VarEntry(c.cp, "1", v) : v \in V(c) \ V(d)} \cup {VarEntry(c.cp, "2", v) : v \in V(d) \ V(c)}
ActText(t) == Join(<<Attr(t, "disp"), Attr(t, "match"), Attr(t, "not-match")>> \o Map(t.types, LAMBDA x : x[1] \o " " \o x[3]))
DefReport(A, B, sort, what) ==
    LET N == Names(A, sort) M == Names(B, sort) IN
    Texts(<<>>, what, N, M)
    \cup {E(<<>>, what \o "-definition", "", n, <<>>) : n \in {x \in N \cap M : Lookup(A, sort, x) # Lookup(B, sort, x)}}
Report(A, B) ==
    LET CA == CharMap(A) CB == CharMap(B) IN
    MetaReport(A.meta, B.meta)
    \cup Texts(<<>>, "references", Values(A), Values(B))
    \cup {E(<<>>, "repertoire", "1", "", cp) : cp \in DOMAIN CA \ DOMAIN CB}
    \cup {E(<<>>, "repertoire", "2", "", cp) : cp \in DOMAIN CB \ DOMAIN CA}
    \cup UNION {CharReport(CA[cp], CB[cp]) : cp \in DOMAIN CA \cap DOMAIN CB}
    \cup Texts(<<>>, "actions", {ActText(t) : t \in Rng(Decls(A, "action"))}, {ActText(t) : t \in Rng(Decls(B, "action"))})
    \cup DefReport(A, B, "rule", "rules") \cup DefReport(A, B, "class", "classes")
\* what a report that shows the identical parts states to be in both
SharedValue(where, what, x, y) == IF x = y THEN {E(where, what, "=", x, <<>>)} ELSE {}
SharedTexts(where, what, X, Y) == {E(where, what, "=", x, <<>>) : x \in X \cap Y}
MetaShared(m, n) ==
    LET Pair(what, x, y) == IF x = <<>> \/ y = <<>> THEN {}
                            ELSE SharedValue(<<>>, what, x[1], y[1]) \cup SharedValue(<<>>, IF what = "version" THEN "version comment" ELSE "description type", x[2], y[2])
    IN Pair("version", m.version, n.version) \cup Pair("description", m.desc, n.desc)
       \cup SharedTexts(<<>>, "scopes", {Join(<<x[2], x[1]>>) : x \in Rng(m.scopes)}, {Join(<<x[2], x[1]>>) : x \in Rng(n.scopes)})
       \cup SharedTexts(<<>>, "languages", Rng(m.langs), Rng(n.langs))
       \cup SharedValue(<<>>, "date", m.date, n.date) \cup SharedValue(<<>>, "validity start", m.vstart, n.vstart)
       \cup SharedValue(<<>>, "validity end", m.vend, n.vend) \cup SharedValue(<<>>, "unicode version", m.uver, n.uver)
CharShared(c, d) ==
    LET V(x) == {VarEntry(c.cp, "=", [cp |-> v.cp, type |-> v.type, when |-> v.when, nwhen |-> v.nwhen, com |-> v.com]) : v \in Rng(x.vars)} IN
    SharedValue(c.cp, "comment", c.com, d.com) \cup SharedValue(c.cp, "when", c.when, d.when) \cup SharedValue(c.cp, "not-when", c.nwhen, d.nwhen)
    \cup (IF Rng(c.tags) = Rng(d.tags) THEN SharedTexts(c.cp, "tags", Rng(c.tags), Rng(d.tags)) ELSE {})
    \cup (V(c) \cap V(d))
SharedParts(A, B) ==
    LET CA == CharMap(A) CB == CharMap(B) acts(D) == {ActText(t) : t \in Rng(Decls(D, "action"))} IN
    MetaShared(A.meta, B.meta)
    \cup SharedTexts(<<>>, "references", Values(A), Values(B))
    \cup {E(<<>>, "repertoire", "=", "", cp) : cp \in DOMAIN CA \cap DOMAIN CB}
    \cup UNION {CharShared(CA[cp], CB[cp]) : cp \in DOMAIN CA \cap DOMAIN CB}
    \cup SharedTexts(<<>>, "actions", acts(A), acts(B))
    \cup SharedTexts(<<>>, "rules", Names(A, "rule"), Names(B, "rule")) \cup SharedTexts(<<>>, "classes", Names(A, "class"), Names(B, "class"))
Identical(A, B) == LET CA == CharMap(A) CB == CharMap(B) IN
    {cp \in DOMAIN CA \cap DOMAIN CB : CharReport(CA[cp], CB[cp]) = {}}
Common(A, B) == DOMAIN CharMap(A) \cap DOMAIN CharMap(B)
=============================================================================
