------------------------------- MODULE Reading ------------------------------
(* Reading an XML document: its elements, in order, are calls on the editing  *)
(* machine.  A strict reading ends with the error of the first element that   *)
(* is refused; a lenient one forces every call, leaves out what is refused    *)
(* all the same, and records that the document could not be read as it stood. *)
(* doc: [meta, els]                                                           *)
(*   meta: sequence of [k |-> "ref" / "date" / "lang" / "uver" / "other",     *)
(*         ok: "yes" / "no" / "never" (not even when lenient), op: the call   *)
(*         for a reference, txt: the text of the others]                      *)
(*   els:  sequence of calls add_cp, add_range, add_variant (a variant        *)
(*         follows the entry it is listed under)                              *)
EXTENDS Edits
Forced(op, lenient) == [op EXCEPT !.force = lenient]
MetaErrs(st, m, lenient) ==
    IF m.k = "ref" THEN AddRefErrs(st, m.op)
    ELSE IF m.ok = "never" \/ (m.ok = "no" /\ ~lenient) THEN {"LGRFormatException"} ELSE {}
\* why: the errors that end the reading; left: number of elements left out
RECURSIVE ReadMeta(_, _, _)
ReadMeta(st, ms, lenient) ==
    IF ms = <<>> THEN [st |-> st, why |-> {}]
    ELSE LET m == Head(ms)
             e == MetaErrs(st, m, lenient)
         IN IF e # {} THEN [st |-> st, why |-> e]
            ELSE ReadMeta(IF m.k = "ref" THEN AddRef(st, m.op, m.op.id) ELSE st, Tail(ms), lenient)
RECURSIVE ReadData(_, _, _, _)
ReadData(st, els, lenient, left) ==
    IF els = <<>> THEN [st |-> st, why |-> {}, left |-> left]
    ELSE LET op == Forced(Head(els), lenient)
             e == TLCEval(Errs(st, op))
         IN IF e = {} THEN ReadData(TLCEval(Eff(st, op, "")), Tail(els), lenient, left)
            ELSE IF lenient THEN ReadData(st, Tail(els), lenient, left + 1)
            ELSE [st |-> st, why |-> e, left |-> left]
Reading(st, doc, lenient) ==
    LET m == ReadMeta(st, doc.meta, lenient) IN
    IF m.why # {} THEN [st |-> m.st, why |-> m.why, left |-> 0] ELSE ReadData(m.st, doc.els, lenient, 0)

\* the last value of a single-valued element; the languages, each once
LastOf(ms, k) == LET s == Filter(ms, LAMBDA m : m.k = k) IN IF s = <<>> THEN "" ELSE s[Len(s)].txt
Langs(ms) == LET s == Map(Filter(ms, LAMBDA m : m.k = "lang"), LAMBDA m : m.txt) IN
             SelectSeq([k \in DOMAIN s |-> IF \E j \in 1..(k - 1) : s[j] = s[k] THEN "" ELSE s[k]], LAMBDA x : x # "")
\* a forced range leaves out the members that are not permitted or already there; whether that counts as
\* a document not read as it stood is not settled
Partial(st0, doc) == \E k \in DOMAIN doc.els : doc.els[k].op = "add_range"
                        /\ (\E c \in doc.els[k].first..doc.els[k].last :
                              (st0.strict /\ c \in st0.inv) \/ \E j \in 1..(k - 1) : c \in {x \in Rng(doc.els[j].cp) : Len(doc.els[j].cp) = 1}
                                  \/ (doc.els[j].op = "add_range" /\ c \in doc.els[j].first..doc.els[j].last))
\* the outcome recorded for each conformance test: TRUE passed, FALSE failed
Listed(doc) == Map(Filter(doc.els, LAMBDA e : e.op = "add_cp"), LAMBDA e : e.cp)
Descents(L) == {k \in 2..Len(L) : LexLess(L[k], L[k - 1]) \/ L[k] = L[k - 1]}
=============================================================================
