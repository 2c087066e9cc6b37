------------------------------- MODULE Import -------------------------------
(* Importing a legacy table: every line is read on its own, and does to the    *)
(* LGR what the editing machine does for the calls it stands for; a call that  *)
(* is refused is skipped.  A line is                                           *)
(*   [k: "none" | "ref" | "version" | "entry", id, value, com, date, dateok,   *)
(*    cp, refs, pref, vars]   (pref, vars: sequences of [cp, refs])            *)
EXTENDS Edits

Op0 == [cp |-> <<>>, var |-> <<>>, com |-> "", refs |-> <<>>, tags |-> <<>>, when |-> "", nwhen |-> "", type |-> "", id |-> "", idok |-> TRUE,
        value |-> "", ovr |-> FALSE, force |-> FALSE, hasval |-> FALSE, val |-> <<>>]
Try(st, errs, next) == IF errs # {} THEN st ELSE next

RECURSIVE AddAll(_, _, _, _, _)
AddAll(st, cp, vs, type, force) ==
    IF vs = <<>> THEN st
    ELSE LET v == Head(vs)
             op == [Op0 EXCEPT !.cp = cp, !.var = v.cp, !.refs = v.refs, !.type = type, !.force = force]
             e == AddVarErrs(st, op)
         IN AddAll(IF e # {} THEN st ELSE AddVar(st, op), cp, Tail(vs), type, force)

\* f: [force: BOOLEAN, variants: BOOLEAN]; imp: [st, no, com, date]
Line(imp, l, f) ==
    CASE l.k = "ref" -> LET op == [Op0 EXCEPT !.id = l.id, !.value = l.value, !.com = l.com] IN
                        [imp EXCEPT !.st = IF AddRefErrs(@, op) # {} THEN @ ELSE AddRef(@, op, l.id)]
      [] l.k = "version" -> IF l.dateok THEN [imp EXCEPT !.no = l.id, !.com = l.com, !.date = l.date] ELSE imp
      [] l.k = "entry" -> LET op == [Op0 EXCEPT !.cp = l.cp, !.refs = l.refs, !.force = f.force]
                              s1 == IF AddCpErrs(imp.st, op) # {} THEN imp.st ELSE AddCp(imp.st, op)
                          IN [imp EXCEPT !.st = AddAll(AddAll(s1, l.cp, l.pref, "activated", f.force), l.cp, l.vars, "", f.force)]
      [] OTHER -> imp
RECURSIVE Lines(_, _, _)
Lines(imp, ls, f) == IF ls = <<>> THEN imp ELSE Lines(Line(imp, Head(ls), f), Tail(ls), f)
Start == [st |-> Empty({}, FALSE), no |-> "", com |-> "", date |-> ""]
Import(ls, f) == Lines(Start, ls, f)

\* a line says nothing about the entry of another code point
Local(ls, f) == LET r == Import(ls, f) IN
    \A c \in DOMAIN r.st.E : r.st.E[c] = Import(SelectSeq(ls, LAMBDA l : l.k = "ref" \/ (l.k = "entry" /\ l.cp = c)), f).st.E[c]
=============================================================================
