------------------------------- MODULE Merge --------------------------------
(* The merge of a set of LGRs: M is the sequence of the members in merge       *)
(* order, S the sequence of their scripts, O the merged LGR.  What a member    *)
(* defines goes under a name prefixed by its script; one rule of the Maximal   *)
(* Starting Repertoire is common to all; the code points are shared.           *)
EXTENDS Compare

MSR == "leading-combining-mark"
P(s, n) == IF n = "" THEN "" ELSE (IF n = MSR THEN "Common" ELSE s) \o "-" \o n
C(s, n) == s \o "-" \o n
Colon(t) == \E k \in 1..Len(t) : SubSeq(t, k, k) = ":"
Tag(s, t) == IF Colon(t) THEN t ELSE C(s, t)

\* a definition with its references replaced by their values, the names prefixed by Pre(sort, attribute, name)
RECURSIVE Say(_, _, _, _)
Say(D, s, t, ren) ==
    LET New(a) == IF ~ren THEN a[2]
                  ELSE IF a[1] = "from-tag" THEN Tag(s, a[2])
                  ELSE IF a[1] \in {"match", "not-match"} THEN P(s, a[2])
                  ELSE IF a[1] \in {"name", "by-ref"} THEN (IF Sort(t) = "rule" THEN P(s, a[2]) ELSE C(s, a[2]))
                  ELSE a[2]
    IN [Node(t.tag, {<<a[1], New(a)>> : a \in {b \in Rng(t.at) : b[1] # "ref"}} \cup RefAttr(D, t), t.tx, Map(t.kids, LAMBDA k : Say(D, s, k, ren)))
        EXCEPT !.kids = @ \o Map(t.types, LAMBDA x : Node(x[1], {<<"type", y>> : y \in Rng(x[2])}, <<>>, <<>>))]
NoName(n) == [n EXCEPT !.at = {a \in @ : a[1] # "name"}]
Defined(D, sort, n) == n \in Names(D, sort)
Default(t) == Attr(t, "match") = "" /\ Attr(t, "not-match") = ""
              /\ <<Attr(t, "disp"), Map(t.types, LAMBDA x : <<x[1], Rng(x[2])>>)>> \in
                  {<<"invalid", <<<<"any", {"invalid"}>>>>>>, <<"blocked", <<<<"any", {"blocked"}>>>>>>, <<"allocatable", <<<<"any", {"allocatable"}>>>>>>,
                   <<"activated", <<<<"all", {"activated"}>>>>>>, <<"valid", <<>>>>}

\* joining texts
Choose2(a, b) == IF a = "" THEN b ELSE IF b = "" \/ a = b THEN a ELSE a \o "|" \o b
RECURSIVE Fold(_, _, _)
Fold(Op(_, _), z, s) == IF s = <<>> THEN z ELSE Op(Fold(Op, z, SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
Some(s) == Once(Filter(s, LAMBDA x : x # ""))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))

\* mappings, whatever their conditions
Rel(CM) == {<<cp, v.cp>> : cp \in DOMAIN CM, v \in {}} \cup UNION {{<<cp, CM[cp].vars[k].cp>> : k \in DOMAIN CM[cp].vars} : cp \in DOMAIN CM}
Strict(R) == {p \in R : p[1] # p[2]}
Closed(R, dom) == /\ \A p \in R : p[2] \in dom /\ <<p[2], p[1]>> \in R
                  /\ \A p \in R : \A q \in R : (p[2] = q[1] /\ p[1] # q[2]) => <<p[1], q[2]>> \in R
RECURSIVE Reach(_, _)
Reach(R, X) == LET Y == X \cup {p[2] : p \in {q \in R : q[1] \in X}} \cup {p[1] : p \in {q \in R : q[2] \in X}} IN IF Y = X THEN X ELSE Reach(R, Y)

Description(M, S) ==
    LET K == SelectSeq([k \in DOMAIN M |-> k], LAMBDA k : M[k].meta.desc # <<>>)
        html == \A k \in Rng(K) : M[k].meta.desc[2] = "text/html"
        One(k) == "\nScript: '" \o S[k] \o "' - MIME-type: '" \o (IF M[k].meta.desc[2] = "" THEN "None" ELSE M[k].meta.desc[2]) \o "':\n" \o M[k].meta.desc[1] \o "\n"
        RECURSIVE Sep(_)
        Sep(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN One(s[1]) ELSE One(s[1]) \o "----\n" \o Sep(Tail(s))
    IN IF K = <<>> THEN <<>> ELSE IF html THEN <<Cat(Map(K, LAMBDA k : M[k].meta.desc[1])), "text/html">> ELSE <<Sep(K), "text/plain">>

\* the members cannot be merged: a code point would need two context rules
Impossible(CM, dom) == \E cp \in dom : Cardinality(UNION {{<<"when", CM[k][cp].when>>, <<"not-when", CM[k][cp].nwhen>>} : k \in {j \in DOMAIN CM : cp \in DOMAIN CM[j]}}
                                                   \ {<<"when", "">>, <<"not-when", "">>}) > 1
Maps(M) == TLCEval([k \in DOMAIN M |-> CharMap(M[k])])

MergeFails(M, S, num, scx, O, onum, today) ==
    LET CM == Maps(M) CO == CharMap(O)
        K == DOMAIN M
        Dom == UNION {DOMAIN CM[k] : k \in K}
        Here(cp) == {k \in K : cp \in DOMAIN CM[k]}
        HereSeq(cp) == SelectSeq([k \in K |-> k], LAMBDA k : k \in Here(cp))
        Both == Dom \cap DOMAIN CO
        Scx(cp) == UNION {Rng(scx[k][2]) : k \in {j \in DOMAIN scx : scx[j][1] = cp}}
        \* what the definitions say
        DefKeys(sort) == {<<k, n>> : k \in K, n \in UNION {Names(M[k], sort) : k \in K}} \cap UNION {{<<k, n>> : n \in Names(M[k], sort)} : k \in K}
        NewName(sort, k, n) == IF sort = "rule" THEN P(S[k], n) ELSE C(S[k], n)
        First(x) == ~\E j \in K : j < x[1] /\ <<j, x[2]>> \in DefKeys("rule")
        Own(sort) == {x \in DefKeys(sort) : sort = "class" \/ x[2] # MSR \/ First(x)}
        Said(sort, x) == Say(M[x[1]], S[x[1]], Lookup(M[x[1]], sort, x[2]), TRUE)
        Out(sort, n) == Say(O, "", Lookup(O, sort, n), FALSE)
        Extra(sort) == Names(O, sort) \ {NewName(sort, x[1], x[2]) : x \in Own(sort)}
        \* context rules of code points
        Context(cp, f, out) ==
            LET H == {k \in Here(cp) : CM[k][cp][f] # ""}
                k0 == CHOOSE k \in H : TRUE
                n == CM[k0][cp][f]
            IN IF H = {} THEN out = ""
               ELSE IF Cardinality(H) = 1 \/ n = MSR THEN out = P(S[k0], n)
               ELSE Defined(O, "rule", out) /\ NoName(Out("rule", out)) \in {NoName(Said("rule", <<k, n>>)) : k \in H}
        \* variants
        Key(k, v) == <<v.cp, P(S[k], v.when), P(S[k], v.nwhen)>>
        Req(cp) == UNION {{Key(k, v) : v \in Rng(CM[k][cp].vars)} : k \in Here(cp)}
        Bodies(cp, key) == UNION {{<<RefValues(M[k], v.refs), v.com>> : v \in {w \in Rng(CM[k][cp].vars) : Key(k, w) = key}} : k \in Here(cp)}
        All == TLCEval(UNION {Strict(Rel(CM[k])) : k \in K})
        New(cp, v) == v.when = "" /\ v.nwhen = "" /\ v.refs = <<>> /\ v.cp # cp /\ v.cp \in Reach(All, {cp})
        Acts(D, s, ren) == Map(Filter(Decls(D, "action"), LAMBDA t : ~ren \/ ~Default(t)), LAMBDA t : Say(D, s, t, ren))
        Joined(f(_)) == Join(Some(Map([k \in K |-> k], f)))
        vn(k) == IF M[k].meta.version = <<>> THEN "" ELSE M[k].meta.version[1]
        vc(k) == IF M[k].meta.version = <<>> THEN "" ELSE M[k].meta.version[2]
        RECURSIVE ConcatM(_, _)
        ConcatM(f(_), k) == IF k = 0 THEN <<>> ELSE ConcatM(f, k - 1) \o f(k)
        acts(k) == Acts(M[k], S[k], TRUE)
        langs(k) == M[k].meta.langs
        scopes(k) == M[k].meta.scopes
    IN Failing({
      <<"well-formed", Well(O, TLCEval(Tables(O)))>>,
      <<"code-points", DOMAIN CO = Dom /\ Cardinality(Chars(O)) = Cardinality(DOMAIN CO)>>,
      <<"tags", \A cp \in Both : Rng(CO[cp].tags) = Scx(cp) \cup UNION {{Tag(S[k], t) : t \in Rng(CM[k][cp].tags)} : k \in Here(cp)}>>,
      <<"char-references", \A cp \in Both : RefValues(O, CO[cp].refs) = UNION {RefValues(M[k], CM[k][cp].refs) : k \in Here(cp)}>>,
      <<"comments", \A cp \in Both : CO[cp].com = Fold(Choose2, "", Map(HereSeq(cp), LAMBDA k : CM[k][cp].com))>>,
      <<"context-rules", \A cp \in Both : Context(cp, "when", CO[cp].when) /\ Context(cp, "nwhen", CO[cp].nwhen)>>,
      <<"variants-kept", \A cp \in Both : Req(cp) \subseteq {VarName(v) : v \in Rng(CO[cp].vars)}>>,
      <<"variants-blocked", \A cp \in Both : \A v \in Rng(CO[cp].vars) : v.type = "blocked">>,
      <<"variants-new", \A cp \in Both : \A v \in Rng(CO[cp].vars) : 
            \/ VarName(v) \in Req(cp) /\ <<RefValues(O, v.refs), v.com>> \in Bodies(cp, VarName(v))
            \/ New(cp, v) /\ (VarName(v) \in Req(cp) => Len(M) > 2)>>,
      <<"variants-once", \A cp \in Both : Cardinality({VarName(v) : v \in Rng(CO[cp].vars)}) = Len(CO[cp].vars)>>,
      <<"variants-closed", (\A k \in K : Closed(Strict(Rel(CM[k])), DOMAIN CM[k])) => Closed(Strict(Rel(CO)), Dom)>>,
      <<"rules", \A x \in Own("rule") : Defined(O, "rule", NewName("rule", x[1], x[2])) => Out("rule", NewName("rule", x[1], x[2])) = Said("rule", x)>>,
      <<"rules-kept", \A x \in Own("rule") : Defined(O, "rule", NewName("rule", x[1], x[2]))>>,
      <<"rules-new", \A n \in Extra("rule") : NoName(Out("rule", n)) \in {NoName(Said("rule", x)) : x \in Own("rule")}>>,
      <<"classes", \A x \in Own("class") : Defined(O, "class", NewName("class", x[1], x[2])) => Out("class", NewName("class", x[1], x[2])) = Said("class", x)>>,
      <<"classes-kept", \A x \in Own("class") : Defined(O, "class", NewName("class", x[1], x[2]))>>,
      <<"classes-new", Extra("class") = {}>>,
      <<"actions", Acts(O, "", FALSE) = ConcatM(acts, Len(M))>>,
      <<"references", Values(O) = UNION {Values(M[k]) : k \in K}
            /\ \A v \in Values(O) : RefComments(O, v) \subseteq UNION {RefComments(M[k], v) : k \in K}>>,
      <<"languages", O.meta.langs = Once(ConcatM(langs, Len(M)))>>,
      <<"scopes", O.meta.scopes = Once(ConcatM(scopes, Len(M)))>>,
      <<"version", IF Joined(vn) = "" THEN O.meta.version \in {<<>>, <<"", Joined(vc)>>} ELSE O.meta.version = <<Joined(vn), Joined(vc)>>>>,
      <<"description", LET d == Description(M, S) IN IF d = <<>> THEN O.meta.desc = <<>> \/ O.meta.desc[1] = "" ELSE O.meta.desc = d>>,
      <<"date", O.meta.date \in Rng(today)>>})
    \cup PeriodFails(num, onum)
=============================================================================
