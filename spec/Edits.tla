-------------------------------- MODULE Edits -------------------------------
(* The editing machine of an LGR.  State:                                    *)
(*   E  entries: code point sequence -> [when, nwhen, tags, refs, com, rng,  *)
(*      vars]; rng is <<first, last>> for a member of a range, else <<>>     *)
(*   R  reference table: sequence of [id, value, com]                        *)
(*   inv / strict: code points that are not IDNA 2008 valid, and whether     *)
(*      they are refused.                                                    *)
(* One action per public editing call.  Errs(st, op) is the set of errors    *)
(* that apply: when it is not empty the call must be refused with one of     *)
(* them and change nothing, otherwise Eff(st, op) is the state it leads to.  *)
EXTENDS Base

Empty(inv, strict) == [E |-> [x \in {} |-> 0], R |-> <<>>, inv |-> inv, strict |-> strict]

Cps(st) == DOMAIN st.E
Has(st, cp) == cp \in DOMAIN st.E
RefIds(st) == {st.R[k].id : k \in DOMAIN st.R}
Ranges(st) == {st.E[c].rng : c \in DOMAIN st.E} \ {<<>>}
UsedTags(st) == UNION {Rng(st.E[c].tags) : c \in DOMAIN st.E}
TagClass(st, t) == UNION {Rng(c) : c \in {x \in DOMAIN st.E : t \in Rng(st.E[x].tags)}}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
RangeSet(a, b) == {<<c>> : c \in a..b}

\* errors common to every insertion of an entry or variant
RefErrs(st, op) ==
    (IF ~op.force /\ \E r \in Rng(op.refs) : r \notin RefIds(st) THEN {"ReferenceNotDefined"} ELSE {})
    \cup (IF ~op.force /\ ~NoDup(SelectSeq(op.refs, LAMBDA r : r \in RefIds(st))) THEN {"DuplicateReference"} ELSE {})
KeptRefs(st, op) == SelectSeq(op.refs, LAMBDA r : r \in RefIds(st))
BothCtx(op) == ~op.force /\ op.when # "" /\ op.nwhen # ""
Idna(st, cps) == IF st.strict /\ \E c \in Rng(cps) : c \in st.inv THEN {"CharInvalidIdnaProperty"} ELSE {}
Outside(op, c) == op.hasval /\ c \notin Rng(op.val)
OutsideErr(op, c) == Outside(op, c) /\ ~op.ovr /\ ~op.force

NewEntry(st, op, rng) ==
    [when |-> op.when, nwhen |-> op.nwhen, tags |-> op.tags, refs |-> KeptRefs(st, op), com |-> op.com, rng |-> rng, vars |-> {}]

(* ------------------------------ code points ------------------------------ *)
AddCpErrs(st, op) ==
    IF op.cp = <<>> THEN {"LGRApiInvalidParameter"}
    ELSE Idna(st, op.cp)
         \cup (IF BothCtx(op) THEN {"CharInvalidContextRule"} ELSE {})
         \cup (IF \E c \in Rng(op.cp) : OutsideErr(op, c) THEN {"NotInRepertoire"} ELSE {})
         \cup RefErrs(st, op)
         \cup (IF ~op.force /\ Len(op.cp) > 1 /\ op.tags # <<>> THEN {"LGRFormatException"} ELSE {})
         \cup (IF ~op.force /\ ~NoDup(op.tags) THEN {"LGRFormatException"} ELSE {})
         \cup (IF Has(st, op.cp) THEN {"CharAlreadyExists"} ELSE {})
AddCp(st, op) == [st EXCEPT !.E = Put(@, op.cp, NewEntry(st, op, <<>>))]

\* the rest of a range after the loss of member c; a single remaining member is a plain entry
Split(st, c) ==
    LET r == st.E[<<c>>].rng
        side(x) == IF x < c THEN <<r[1], c - 1>> ELSE <<c + 1, r[2]>>
    IN [x \in DOMAIN st.E \ {<<c>>} |->
          IF st.E[x].rng # r THEN st.E[x]
          ELSE LET s == side(x[1]) IN [st.E[x] EXCEPT !.rng = IF s[1] = s[2] THEN <<>> ELSE s]]
DelCpErrs(st, op) == IF op.cp = <<>> THEN {"LGRApiInvalidParameter"}
                     ELSE Idna(st, op.cp) \cup (IF Has(st, op.cp) THEN {} ELSE {"NotInLGR"})
DelCp(st, op) == [st EXCEPT !.E = IF st.E[op.cp].rng # <<>> THEN Split(st, op.cp[1]) ELSE Drop(@, {op.cp})]

(* --------------------------------- ranges -------------------------------- *)
Kept(st, op) ==   \* code points of the range that get inserted
    {c \in op.first..op.last : ~(st.strict /\ c \in st.inv) /\ ~Has(st, <<c>>)}
AddRangeErrs(st, op) ==
    IF op.first > op.last THEN {"LGRApiInvalidParameter"}
    ELSE (IF BothCtx(op) THEN {"RangeInvalidContextRule"} ELSE {})
         \cup (IF op.force THEN {} ELSE
                 (IF st.strict /\ \E c \in op.first..op.last : c \in st.inv THEN {"CharInvalidIdnaProperty"} ELSE {})
                 \cup (IF \E c \in op.first..op.last : OutsideErr(op, c) THEN {"NotInRepertoire"} ELSE {})
                 \cup (IF \E c \in op.first..op.last : Has(st, <<c>>) THEN {"CharAlreadyExists"} ELSE {})
                 \cup (IF ~NoDup(op.tags) THEN {"LGRFormatException"} ELSE {}))
         \cup RefErrs(st, op)
\* maximal run of S around c
RunOf(S, c) == <<CHOOSE a \in S : a <= c /\ a..c \subseteq S /\ (a - 1) \notin S,
                 CHOOSE b \in S : b >= c /\ c..b \subseteq S /\ (b + 1) \notin S>>
AddRange(st, op) ==
    LET K == Kept(st, op)
        new == [x \in {<<c>> : c \in K} |-> LET r == RunOf(K, x[1]) IN NewEntry(st, op, IF r[1] = r[2] THEN <<>> ELSE r)]
    IN [st EXCEPT !.E = new @@ @]

DelRangeErrs(st, op) == IF op.first > op.last THEN {"LGRApiInvalidParameter"}
                        ELSE IF <<op.first, op.last>> \notin Ranges(st) THEN {"NotInLGR"} ELSE {}
DelRange(st, op) == [st EXCEPT !.E = Drop(@, RangeSet(op.first, op.last))]
ExpandErrs(st, op) == DelRangeErrs(st, op) \cup (IF op.first <= op.last THEN Idna(st, <<op.first>>) ELSE {})
Expand(st, S) == [st EXCEPT !.E = [x \in DOMAIN @ |-> IF st.E[x].rng \in S THEN [st.E[x] EXCEPT !.rng = <<>>] ELSE st.E[x]]]

\* insertion straight into the repertoire object
RepRangeErrs(st, op) ==
    (IF \E r \in Ranges(st) : ~(op.first > r[2] \/ op.last < r[1]) THEN {"RangeAlreadyExists"} ELSE {})
    \cup (IF \E c \in op.first..op.last : Has(st, <<c>>) THEN {"CharAlreadyExists"} ELSE {})
RepRange(st, op) == [st EXCEPT !.E = [x \in RangeSet(op.first, op.last) |->
                        [when |-> op.when, nwhen |-> op.nwhen, tags |-> <<>>, refs |-> <<>>, com |-> op.com,
                         rng |-> <<op.first, op.last>>, vars |-> {}]] @@ @]

(* -------------------------------- variants ------------------------------- *)
SameVar(v, op) == v.cp = op.var /\ v.when = op.when /\ v.nwhen = op.nwhen
AddVarErrs(st, op) ==
    IF op.cp = <<>> \/ op.var = <<>> THEN {"LGRApiInvalidParameter"} \cup Idna(st, op.cp) \cup Idna(st, op.var)
    ELSE Idna(st, op.cp) \cup Idna(st, op.var)
         \cup (IF BothCtx(op) THEN {"VariantInvalidContextRule"} ELSE {})
         \cup (IF \E c \in Rng(op.var) : OutsideErr(op, c) THEN {"NotInRepertoire"} ELSE {})
         \cup RefErrs(st, op)
         \cup (IF ~Has(st, op.cp) THEN {"NotInLGR"}
               ELSE IF st.E[op.cp].rng # <<>> THEN {"LGRFormatException"}
               ELSE IF \E v \in st.E[op.cp].vars : SameVar(v, op) THEN {"VariantAlreadyExists"} ELSE {})
AddVar(st, op) == [st EXCEPT !.E[op.cp].vars = @ \cup {[cp |-> op.var, when |-> op.when, nwhen |-> op.nwhen, type |-> op.type,
                                                       refs |-> KeptRefs(st, op), com |-> op.com]}]
DelVarErrs(st, op) ==
    IF op.cp = <<>> THEN {"LGRApiInvalidParameter"}
    ELSE Idna(st, op.cp)
         \cup (IF ~Has(st, op.cp) THEN {"NotInLGR"} ELSE IF st.E[op.cp].rng # <<>> THEN {"LGRFormatException"} ELSE {})
DelVar(st, op) == [st EXCEPT !.E[op.cp].vars = {v \in @ : ~SameVar(v, op)}]

(* --------------------------- tags and references ------------------------- *)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
DelTag(st, op) == [st EXCEPT !.E = [c \in DOMAIN @ |-> [@[c] EXCEPT !.tags = Without(@, op.id)]]]

AddRefErrs(st, op) == IF op.id = "" THEN {}
                      ELSE (IF op.id \in RefIds(st) THEN {"ReferenceAlreadyExists"} ELSE {})
                           \cup (IF ~op.idok THEN {"ReferenceInvalidId"} ELSE {})
AddRef(st, op, id) == [st EXCEPT !.R = Append(@, [id |-> id, value |-> op.value, com |-> op.com])]
KnownRef(st, op) == IF op.id \in RefIds(st) THEN {} ELSE {"ReferenceNotDefined"}
DelRef(st, op) ==
    [st EXCEPT !.R = SelectSeq(@, LAMBDA r : r.id # op.id),
               !.E = [c \in DOMAIN @ |-> [@[c] EXCEPT !.refs = Without(@, op.id),
                                                      !.vars = {[v EXCEPT !.refs = Without(@, op.id)] : v \in @}]]]
UpdRef(st, op) ==
    [st EXCEPT !.R = [k \in DOMAIN @ |-> IF @[k].id # op.id THEN @[k]
                        ELSE [@[k] EXCEPT !.value = IF op.value = "" THEN @ ELSE op.value,
                                          !.com = IF op.com = "" THEN @ ELSE op.com]]]

(* --------------------------- bulk insertion ------------------------------ *)
\* a list of code points is inserted run by run, in ascending order, up to the first run refused
RunsOf(S) == {RunOf(S, c) : c \in S}
NextRun(rs) == CHOOSE r \in rs : \A q \in rs : r[1] <= q[1]
RECURSIVE Bulk(_, _, _)
Bulk(st, op, rs) ==
    IF rs = {} THEN [errs |-> {}, st |-> st]
    ELSE LET r == NextRun(rs)
             o1 == [op EXCEPT !.cp = <<r[1]>>, !.first = r[1], !.last = r[2]]
             e == IF r[1] = r[2] THEN AddCpErrs(st, o1) ELSE AddRangeErrs(st, o1)
         IN IF e # {} THEN [errs |-> e, st |-> st]
            ELSE Bulk(IF r[1] = r[2] THEN AddCp(st, o1) ELSE AddRange(st, o1), op, rs \ {r})

(* ------------------------------ the machine ------------------------------ *)
Errs(st, op) ==
    CASE op.op = "add_cp" -> AddCpErrs(st, op)
      [] op.op = "del_cp" -> DelCpErrs(st, op)
      [] op.op = "add_range" -> AddRangeErrs(st, op)
      [] op.op = "del_range" -> DelRangeErrs(st, op)
      [] op.op = "expand_range" -> ExpandErrs(st, op)
      [] op.op = "rep_range" -> RepRangeErrs(st, op)
      [] op.op = "add_variant" -> AddVarErrs(st, op)
      [] op.op = "del_variant" -> DelVarErrs(st, op)
      [] op.op = "add_ref" -> AddRefErrs(st, op)
      [] op.op = "del_ref" -> KnownRef(st, op)
      [] op.op = "upd_ref" -> KnownRef(st, op)
      [] op.op = "add_codepoints" -> Bulk(st, op, RunsOf(Rng(op.list))).errs
      [] op.op = "check_range" -> IF op.first > op.last THEN {"LGRApiInvalidParameter"} ELSE {}
      [] OTHER -> {}                            \* del_tag, expand_ranges, queries

\* id is the identifier returned when a reference is added without one
Eff(st, op, id) ==
    CASE op.op = "add_cp" -> AddCp(st, op)
      [] op.op = "del_cp" -> DelCp(st, op)
      [] op.op = "add_range" -> AddRange(st, op)
      [] op.op = "del_range" -> DelRange(st, op)
      [] op.op = "expand_range" -> Expand(st, {<<op.first, op.last>>})
      [] op.op = "expand_ranges" -> Expand(st, Ranges(st))
      [] op.op = "rep_range" -> RepRange(st, op)
      [] op.op = "add_variant" -> AddVar(st, op)
      [] op.op = "del_variant" -> DelVar(st, op)
      [] op.op = "del_tag" -> DelTag(st, op)
      [] op.op = "add_ref" -> AddRef(st, op, id)
      [] op.op = "del_ref" -> DelRef(st, op)
      [] op.op = "upd_ref" -> UpdRef(st, op)
      [] OTHER -> st
After(st, op, id) == IF op.op = "add_codepoints" THEN Bulk(st, op, RunsOf(Rng(op.list))).st
                     ELSE IF Errs(st, op) # {} THEN st ELSE Eff(st, op, id)

\* value returned by the call
RetOk(st, op, o) ==
    CASE op.op = "del_variant" -> o.ret = (IF \E v \in st.E[op.cp].vars : SameVar(v, op) THEN "true" ELSE "false")
      [] op.op = "add_ref" -> IF op.id # "" THEN o.ret = op.id ELSE o.ret # "" /\ o.ret \notin RefIds(st) /\ o.retok
      [] op.op = "check_range" ->
           /\ Len(o.rets) = op.last - op.first + 1
           /\ \A k \in DOMAIN o.rets :
                LET c == op.first + k - 1
                    bad == (IF c \in st.inv THEN {"CharInvalidIdnaProperty"} ELSE {})
                           \cup (IF Outside(op, c) THEN {"NotInRepertoire"} ELSE {})
                           \cup (IF Has(st, <<c>>) THEN {"CharAlreadyExists"} ELSE {})
                IN o.cps[k] = c /\ IF bad = {} THEN o.rets[k] = "" ELSE o.rets[k] \in bad
      [] OTHER -> TRUE

(* ------------------------ invariants of the machine ---------------------- *)
RangesWhole(st) == \A r \in Ranges(st) :
    /\ r[1] < r[2]
    /\ \A c \in r[1]..r[2] : Has(st, <<c>>) /\ st.E[<<c>>].rng = r
    /\ \A x \in DOMAIN st.E : st.E[x].rng = r => Len(x) = 1 /\ x[1] \in r[1]..r[2]
NoDangling(st) ==
    \A c \in DOMAIN st.E : Rng(st.E[c].refs) \subseteq RefIds(st) /\ \A v \in st.E[c].vars : Rng(v.refs) \subseteq RefIds(st)
UniqueIds(st) == \A j, k \in DOMAIN st.R : st.R[j].id = st.R[k].id => j = k
VarIdentity(st) == \A c \in DOMAIN st.E : \A v, w \in st.E[c].vars :
    v.cp = w.cp /\ v.when = w.when /\ v.nwhen = w.nwhen => v = w
NoVarsInRange(st) == \A c \in DOMAIN st.E : st.E[c].rng # <<>> => st.E[c].vars = {}
NoTaggedSeq(st) == \A c \in DOMAIN st.E : Len(c) > 1 => st.E[c].tags = <<>>
WellFormed(st) == RangesWhole(st) /\ NoDangling(st) /\ UniqueIds(st) /\ VarIdentity(st) /\ NoVarsInRange(st) /\ NoTaggedSeq(st)
=============================================================================
