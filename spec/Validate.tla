------------------------------ MODULE Validate ------------------------------
(* Whole-LGR validation: what rebuilding reports, entry by entry, and which    *)
(* RFC 7940 tests of the data and rules fail.                                  *)
(* C: entries in iteration order, a range once (proj.chars).                   *)
(* opt: [inv, strict, hasval, val, scripts, scr]; inv the code points that are *)
(* not IDNA valid, val the validating repertoire, scripts those of the LGR and *)
(* scr the script of each code point of interest <<cp, script>>.               *)
EXTENDS Edits
Op(c, opt, k) == [op |-> k, cp |-> c.cp, first |-> IF c.rng = <<>> THEN 0 ELSE c.rng[1], last |-> IF c.rng = <<>> THEN 0 ELSE c.rng[2],
                  var |-> <<>>, when |-> c.when, nwhen |-> c.nwhen, refs |-> c.refs, tags |-> c.tags, com |-> c.com,
                  force |-> FALSE, ovr |-> FALSE, hasval |-> opt.hasval, val |-> opt.val]
VarOp(c, v, opt) == [op |-> "add_variant", cp |-> c.cp, first |-> 0, last |-> 0, var |-> v.cp, when |-> v.when, nwhen |-> v.nwhen,
                     refs |-> v.refs, tags |-> <<>>, com |-> v.com, force |-> FALSE, ovr |-> TRUE, hasval |-> opt.hasval, val |-> opt.val]
Script(opt, c) == (CHOOSE x \in Rng(opt.scr) : x[1] = c)[2]
OutScript(opt, c) == opt.scripts # <<>> /\ Script(opt, c) \notin Rng(opt.scripts) \cup {"Zyyy", "Zinh"}
Members(c) == IF c.rng = <<>> THEN <<>> ELSE [k \in 1..(c.rng[2] - c.rng[1] + 1) |-> c.rng[1] + k - 1]

\* the target is empty but for its references: entries do not depend on one another
Fresh(refs, opt) == [Empty(Rng(opt.inv), opt.strict) EXCEPT !.R = refs]
RangeStatus(opt, x) == IF opt.strict /\ x \in Rng(opt.inv) THEN "CharInvalidIdnaProperty"
                       ELSE IF opt.hasval /\ x \notin Rng(opt.val) THEN "NotInRepertoire" ELSE ""
RangeErrors(opt, c) == SelectSeq([k \in DOMAIN Members(c) |-> <<RangeStatus(opt, Members(c)[k]), Members(c)[k]>>], LAMBDA e : e[1] # "")
RangeWarnings(opt, c) == SelectSeq(Members(c), LAMBDA x : OutScript(opt, x))
EntryErrs(refs, opt, c) == AddCpErrs(Fresh(refs, opt), Op(c, opt, "add_cp"))
EntryOut(opt, c) == \E k \in DOMAIN c.cp : OutScript(opt, c.cp[k])
WithEntry(refs, opt, c) == LET st == Fresh(refs, opt) IN
    IF Idna(st, c.cp) # {} THEN st ELSE AddCp(st, Op(c, opt, "add_cp"))
VarErrs(refs, opt, c, v) == AddVarErrs(WithEntry(refs, opt, c), VarOp(c, v, opt))

(* rep: what was reported for c: [errors: seq of <<name, cp>>, warnings: seq of cps, vars: seq of [v, errs]] *)
ReportOk(refs, opt, c, rep) ==
    IF c.rng # <<>> THEN
        LET es == RangeErrors(opt, c)
            ws == RangeWarnings(opt, c)
            more == AddRangeErrs(Fresh(refs, opt), Op(c, opt, "add_range"))
        IN /\ rep.vars = <<>>
           /\ rep.warnings = [k \in DOMAIN ws |-> <<ws[k]>>]
           /\ IF es # <<>> THEN [k \in DOMAIN rep.errors |-> <<rep.errors[k][1], rep.errors[k][2][1]>>] = es
              ELSE IF more = {} THEN rep.errors = <<>>
              ELSE IF ws # <<>> THEN rep.errors = <<>>
              ELSE Len(rep.errors) = 1 /\ rep.errors[1][1] \in more
    ELSE LET es == EntryErrs(refs, opt, c) IN
         /\ rep.warnings = IF EntryOut(opt, c) THEN <<c.cp>> ELSE <<>>
         /\ IF es = {} THEN rep.errors = <<>> ELSE Len(rep.errors) = 1 /\ rep.errors[1][1] \in es
         /\ {<<x.cp, x.when, x.nwhen>> : x \in {rep.vars[k].v : k \in DOMAIN rep.vars}}
              = {<<x.cp, x.when, x.nwhen>> : x \in {v \in Rng(c.vars) : VarErrs(refs, opt, c, v) # {}}}
         /\ \A k \in DOMAIN rep.vars : LET x == rep.vars[k] IN
               /\ Len(x.errs) = 1
               /\ \E v \in Rng(c.vars) : v.cp = x.v.cp /\ v.when = x.v.when /\ v.nwhen = x.v.nwhen /\ x.errs[1] \in VarErrs(refs, opt, c, v)
Silent == [errors |-> <<>>, warnings |-> <<>>, vars |-> <<>>]
BadEntries(refs, opt, C) == {C[k].cp : k \in {k \in DOMAIN C : ~ReportOk(refs, opt, C[k], Silent)}}

(* ------------------------- RFC 7940 data and rules ----------------------- *)
Standard == {"invalid", "blocked", "allocatable", "activated", "valid"}
Vars(C) == UNION {Rng(C[k].vars) : k \in {k \in DOMAIN C : C[k].rng = <<>>}}
BadTypes(bad, C) == \E v \in Vars(C) : v.type \in Rng(bad)
\* refs given as numbers: <<n1, n2, ...>>, a non-integer reference as -1; order is judged up to the first of those
Prefix(s) == IF \E k \in DOMAIN s : s[k] = -1 THEN SubSeq(s, 1, (CHOOSE k \in DOMAIN s : s[k] = -1 /\ \A j \in 1..(k-1) : s[j] # -1) - 1) ELSE s
Ascending(s) == LET p == Prefix(s) IN \A k \in 1..(Len(p) - 1) : p[k] < p[k + 1]
AllCps(C) == UNION {IF C[k].rng = <<>> THEN Rng(C[k].cp) \cup UNION {Rng(v.cp) : v \in Rng(C[k].vars)} ELSE Rng(Members(C[k])) : k \in DOMAIN C}
=============================================================================
