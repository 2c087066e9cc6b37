------------------------------- MODULE T_C33 --------------------------------
(* Recorded readings of documents: o.x the error that ended the reading, else *)
(* the projection of the LGR read, its metadata and the recorded outcomes.    *)
EXTENDS Reading, EditsObs, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
Before(r) == Empty(Rng(r.c.inv), r.c.strict)
MetaFails(r) ==
    LET M == r.c.doc_.meta IN
    Failing({<<"date", r.o.m.date = LastOf(M, "date")>>,
             <<"unicode-version", r.o.m.uver = (IF \E k \in DOMAIN M : M[k].k = "uver" THEN LastOf(M, "uver") ELSE r.o.m.dfltver)>>,
             <<"languages", r.o.m.langs = Langs(M)>>,
             <<"asked-before", r.o.m.asked = r.o.m.uver>>,
             <<"name", r.o.m.name>>})
StatusFails(r, x) ==
    LET M == r.c.doc_.meta
        odd == \E k \in DOMAIN M : M[k].k = "other"
        clean == x.left = 0 /\ ~odd
        S(t) == r.o.rec[CHOOSE k \in DOMAIN r.o.rec : r.o.rec[k][1] = t][2]
        sure == ~Partial(Before(r), r.c.doc_)
        langs == {k \in DOMAIN M : M[k].k = "lang"}
        bad(k) == \E j \in DOMAIN M : M[j].k = k /\ M[j].ok = "no"
    IN Failing({
        <<"recorded-parse", IF clean THEN (sure => S("parse_xml") = "pass") ELSE S("parse_xml") = "fail">>,
        <<"recorded-code-points", IF x.left = 0 THEN (sure => S("codepoint_valid") # "fail") ELSE S("codepoint_valid") = "fail">>,
        <<"recorded-language", S("metadata_language") = (IF langs = {} THEN "notrun" ELSE IF bad("lang") THEN "fail" ELSE "pass")>>,
        <<"recorded-version", (S("valid_unicode_version") = "fail") = bad("uver")>>,
        <<"recorded-explicit", S("explicit_unicode_version") = (IF \E k \in DOMAIN M : M[k].k = "uver" THEN "pass" ELSE "fail")>>,
        <<"recorded-order", LET L == Listed(r.c.doc_)
                                d == Descents(L)
                                real == {k \in d : ~IsPfx(L[k], L[k - 1])}
                            IN /\ S("char_ascending_order") = (IF real # {} THEN "fail" ELSE "pass")
                               /\ (d = {} => S("char_strict_ascending_order") = "pass")
                               /\ (d # {} /\ real = {} => S("char_strict_ascending_order") = "fail")>>})
Fails(r) ==
    LET x == TLCEval(Reading(Before(r), r.c.doc_, r.c.lenient)) IN
    IF x.why # {} THEN Failing({<<"refused", r.o.x \in x.why>>})
    ELSE IF r.o.x # "" THEN {"raised"}
    ELSE ObsFails(x.st, r.o.p) \cup MetaFails(r) \cup StatusFails(r, x) \cup Failing({<<"source", r.o.same>>})
INSTANCE TraceRun
=============================================================================
