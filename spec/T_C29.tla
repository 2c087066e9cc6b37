------------------------------- MODULE T_C29 --------------------------------
(* Rebuilding and whole-LGR validation.  o.chars / o.refs is the LGR asked     *)
(* about, as projected beforehand.                                             *)
EXTENDS Validate, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
CheckNames == <<"check_xml_validity", "check_symmetry", "check_transitivity", "check_conditional_variants", "rebuild_lgr", "compute_stats">>
MoreNames == <<"check_metadata", "check_miscellaneous">>
RefTable(o) == o.refs

RebuildFails(r) ==
    LET C == r.o.chars
        opt == r.c.opt
        refs == RefTable(r.o)
        bad == TLCEval(BadEntries(refs, opt, C))
        reported == {r.o.rep[k].cp : k \in DOMAIN r.o.rep}
        of(cp) == r.o.rep[CHOOSE k \in DOMAIN r.o.rep : r.o.rep[k].cp = cp]
    IN {<<"rebuild-missed", bad \subseteq reported>>,
        <<"rebuild-invented", reported \subseteq bad>>,
        <<"rebuild-report", \A k \in DOMAIN C : C[k].cp \in bad /\ C[k].cp \in reported =>
              LET x == of(C[k].cp) IN ReportOk(refs, opt, C[k], [errors |-> x.errors, warnings |-> x.warnings, vars |-> x.vars])>>,
        <<"rebuild-options", r.o.options>>,
        <<"changed", r.o.same>>}

\* tests of the data and rules: which fail, and which cannot be run
DataFails(r) ==
    LET C == r.o.chars
        F == {<<"data_variant_type", BadTypes(r.c.badtypes, C)>>,
              <<"standard_dispositions", \E k \in DOMAIN r.o.disps : r.o.disps[k] \notin Standard>>,
              <<"ref_attribute_ascending", \E k \in DOMAIN r.o.reflists : ~Ascending(r.o.reflists[k])>>}
             \cup (IF r.o.samever THEN {<<"codepoint_valid", \E c \in AllCps(C) : c \in Rng(r.c.opt.inv)>>} ELSE {})
        Status(t) == r.o.rec[CHOOSE k \in DOMAIN r.o.rec : r.o.rec[k][1] = t][2]
    IN {<<"recorded:" \o f[1], Status(f[1]) = (IF f[2] THEN "fail" ELSE "pass")>> : f \in F}
       \cup {<<"recorded:codepoint_valid", r.o.samever \/ Status("codepoint_valid") = "notrun">>,
             <<"misc-verdict", r.o.misc = (\A f \in F : f[1] = "codepoint_valid" \/ ~f[2]) \/ (\E f \in F : f[1] = "codepoint_valid" /\ f[2])>>}

ValidateFails(r) ==
    {<<"checks-run", r.o.names = IF r.c.rfc THEN CheckNames \o MoreNames ELSE CheckNames>>,
     <<"checks-repeat", r.o.names2 = r.o.names>>,
     <<"checks-again", r.o.again>>,
     <<"checks-agree", r.o.agree>>,
     <<"changed", r.o.same>>}
    \cup (IF r.c.rfc THEN DataFails(r) ELSE {})

\* order of the <char> elements as listed
OrderFails(r) ==
    LET L == r.c.list
        desc == {k \in 2..Len(L) : LexLess(L[k], L[k-1]) \/ L[k] = L[k-1]}
        real == {k \in desc : ~IsPfx(L[k], L[k-1])}
    IN {<<"order", r.o.order = (IF real # {} THEN "fail" ELSE "pass")>>,
        <<"strict-order", (desc = {} => r.o.strict = "pass") /\ ((desc # {} /\ real = {}) => r.o.strict = "fail")>>,
        <<"explicit-version", r.o.explicit = (IF r.c.uver THEN "pass" ELSE "fail")>>,
        <<"code-point-valid", r.o.valid = (IF \E k \in DOMAIN L : \E c \in Rng(L[k]) : c \in Rng(r.c.inv) THEN "fail" ELSE "notrun")>>}
Fails(r) ==
    IF r.o.exc # "" THEN {"raised:" \o r.c.kind}
    ELSE Failing(CASE r.c.kind = "rebuild" -> RebuildFails(r)
                   [] r.c.kind = "validate" -> ValidateFails(r)
                   [] OTHER -> OrderFails(r))
INSTANCE TraceRun
=============================================================================
