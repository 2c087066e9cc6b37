------------------------------- MODULE Report -------------------------------
(* What the label tools print: reports are read back into blocks (one per      *)
(* label) and compared with the evaluation of each label alone.                *)
EXTENDS Collide

DefaultComments == <<"Default action for invalid", "Default action for blocked", "Default action for allocatable", "Default action for activated", "Default catch-all">>
ActionName(comments, idx) == LET all == comments \o DefaultComments IN "<Action: " \o (IF all[idx + 1] = "" THEN "anon" ELSE all[idx + 1]) \o ">"
\* the action named as in the file or as one of the default actions
Numbered(L, idx) == IF idx >= Len(L.actions) THEN <<"DefaultAction", idx - Len(L.actions)>> ELSE <<"Action", idx>>

PartsMatch(inv, o) == /\ Map(o, LAMBDA x : x.cp) = Map(inv, LAMBDA x : x.cp)
                      /\ \A k \in DOMAIN o : Rng(o[k].rules) = Rng(inv[k].rules) /\ Len(o[k].rules) = Len(inv[k].rules)

\* e: what the line says: [lab, bad]; b: the block printed: [lab, disp, note, rules: seq of <<index, name>>, parts]
\* notes(lab): the permitted remarks
LineFails(L, comments, e, b, Notes(_)) ==
    IF b.lab # e.lab THEN {"label"}
    ELSE IF e.bad THEN Failing({<<"error", b.disp # "" /\ b.rules = <<>> /\ b.parts = <<>>>>})
    ELSE LET v == TLCEval(Eligible(L, e.lab, FALSE)) IN
         Failing({<<"disposition", b.disp = v.disp>>,
                  <<"rule", b.rules = IF ~v.ok /\ v.idx >= 0 THEN <<<<v.idx, ActionName(comments, v.idx)>>>> ELSE <<>>>>,
                  <<"code-points", PartsMatch(v.inv, b.parts)>>,
                  <<"note", b.note \in (IF v.ok THEN Notes(e.lab) ELSE {""})>>})

ReportFails(L, comments, lines, blocks, Notes(_)) ==
    IF Len(lines) # Len(blocks) THEN {"lines"}
    ELSE UNION {LineFails(L, comments, lines[k], blocks[k], Notes) : k \in DOMAIN lines}

\* -------------------------------------- labels already in an LGR set
\* M: the common LGR, S: the lines of the set labels
Kept(M, S) == TLCEval({e.lab : e \in {x \in Rng(S) : ~x.bad /\ InRepertoire(M, x.lab)}})
RefusedLines(M, S) == SelectSeq(S, LAMBDA e : e.bad \/ ~InRepertoire(M, e.lab))
Collisions(M, K, lab) == IF ~InRepertoire(M, lab) THEN {} ELSE {k \in K : k # lab /\ IndexLabel(M, k) = IndexLabel(M, lab)}
SetNotes(M, K, lab) ==
    LET in == lab \in K
        col == Collisions(M, K, lab) # {}
    IN IF col /\ in THEN {"collides", "in"} ELSE IF col THEN {"collides"} ELSE IF in THEN {"in"} ELSE {""}
\* r: the refused set labels, in order: [lab, invalid]
RefusedFails(M, S, r) ==
    LET X == RefusedLines(M, S) IN
    Failing({<<"set-labels", Map(r, LAMBDA x : x.lab) = Map(X, LAMBDA x : x.lab)>>})

\* -------------------------------------- one label validated: eligibility, disposition, collisions, variants
\* b: [lab, cp, ok, disp, valid, parts, collision: "" | "none" | "in" | "with" , with, variants: seq of <<label, disposition>>, shown]
\* set: whether labels of a set are given, K those kept; gen: whether variants are to be generated
ValidateFails(L, M, set, K, gen, lab, b) ==
    LET v == TLCEval(Eligible(L, lab, FALSE))
        Clash == \E x \in K \ {lab} : \E y \in K \ {lab} : x # y /\ IndexLabel(M, x) = IndexLabel(M, y)
        C == Collisions(M, K, lab)
        D == TLCEval(Derivations(L, lab))
        P == {d \in D : d.disp # "invalid"}
        Must == {c \in {d.cp : d \in P} : \A d \in D : d.cp = c => d \in P}
        Got == Map(b.variants, LAMBDA x : x[1])
    IN Failing({
      <<"label", b.lab = lab /\ b.cp = lab>>,
      <<"eligible", b.ok = v.ok>>,
      <<"disposition", b.disp = v.disp>>,
      <<"parts", IF v.ok THEN b.valid = <<>> /\ b.parts = <<>> ELSE (b.valid = v.parts /\ PartsMatch(v.inv, b.parts))>>,
      <<"collision", IF ~v.ok \/ ~set THEN b.collision = ""
                     ELSE IF lab \in K THEN b.collision = "in"
                     ELSE Clash \/ (IF C = {} THEN b.collision = "none" ELSE (b.collision = "with" /\ b.with \in C))>>,
      <<"no-variants", (gen /\ v.ok) \/ (b.variants = <<>> /\ ~b.shown)>>,
      <<"variants", ~gen \/ ~v.ok \/ (set /\ Clash /\ lab \notin K) \/
            (/\ b.shown
             /\ NoDup(Got)
             /\ \A x \in Rng(b.variants) : (\E d \in P : d.cp = x[1] /\ d.disp = x[2]) \/ x = <<lab, v.disp>>
             /\ Must \cup {lab} \subseteq Rng(Got))>>})

\* -------------------------------------- the exerciser
\* b: [lab, cp, ok, disp, by: <<name, number>>, variants: seq of [cp, types, disp, by]]
ExerciseFails(L, incl, lab, b) ==
    LET v == TLCEval(Eligible(L, lab, FALSE))
        D == TLCEval(Derivations(L, lab))
        P == {d \in D : incl \/ d.disp # "invalid"}
        Must == {c \in {d.cp : d \in P} : \A d \in D : d.cp = c => d \in P}
        Got == Map(b.variants, LAMBDA x : x.cp)
        Own == \E d \in P : d.cp = lab
        Explained(x) == \/ \E d \in P : d.cp = x.cp /\ d.disp = x.disp /\ d.types = Rng(x.types) /\ x.by = (IF d.idx < 0 THEN <<"Action", d.idx>> ELSE Numbered(L, d.idx))
                        \/ x.cp = lab /\ x.types = <<>> /\ x.disp = v.disp /\ x.by = Numbered(L, v.idx)
    IN Failing({
      <<"label", b.lab = lab /\ b.cp = lab>>,
      <<"eligible", b.ok = v.ok>>}) \cup
      (IF ~v.ok THEN Failing({<<"no-more", b.disp = "" /\ b.variants = <<>>>>})
       ELSE Failing({
          <<"disposition", b.disp = v.disp>>,
          <<"action", b.by = Numbered(L, v.idx)>>,
          <<"variants", NoDup(Got) /\ Must \cup {lab} \subseteq Rng(Got)>>,
          <<"variant-dispositions", \A x \in Rng(b.variants) : Explained(x)>>}))

\* -------------------------------------- IDNA 2008 compliance
\* chars: the entries [cp, out: types of reflexive variants], P: code point -> [ok, old]: permitted by IDNA 2008 and not refused by IDNA 2003
IdnaFails(chars, P, o) ==
    LET Lower(t) == t   \* types are given in lower case
        Prefix == "out-of-repertoire"
        Starts(t) == Len(t) >= Len(Prefix) /\ SubSeq(t, 1, Len(Prefix)) = Prefix
        Out(c) == \E t \in Rng(c.types) : Starts(t)
        Of(x) == P[CHOOSE k \in DOMAIN P : P[k].cp = x]
        Bad == {c.cp : c \in {x \in Rng(chars) : ~Out(x) /\ \E k \in DOMAIN x.cp : ~Of(x.cp[k]).ok}}
    IN Failing({
      <<"listed", {e.cp : e \in Rng(o.listed)} = Bad /\ Len(o.listed) = Cardinality(Bad)>>,
      <<"flag", o.any = (Bad # {})>>,
      <<"idna2003", \A e \in Rng(o.listed) : e.old = (\A k \in DOMAIN e.cp : Of(e.cp[k]).old)>>,
      <<"count", o.count = Len(chars) - Cardinality(Bad)>>,
      <<"described", \A e \in Rng(o.listed) : e.prop = Map(e.cp, LAMBDA x : Of(x).prop) /\ e.gc = Map(e.cp, LAMBDA x : Of(x).gc)>>})
=============================================================================
