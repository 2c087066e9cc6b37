------------------------------- MODULE Scripts ------------------------------
(* Hiding mixed-script variants.  S is a table [cp, s] of the scripts of the  *)
(* code points in use; Common and Inherited go along with every script.       *)
EXTENDS Lgr

Script(S, c) == S[CHOOSE k \in DOMAIN S : S[k].cp = c].s
ScriptsOf(S, w) == {Script(S, c) : c \in Rng(w)} \ {"Common", "Inherited"}
\* scripts that are written together
Permitted(X) ==
    LET J == IF X \cap {"Katakana", "Hiragana"} # {} THEN {"Katakana", "Hiragana", "Han", "Latin"} ELSE {}
        K == IF "Hangul" \in X THEN {"Latin"} ELSE {}
        C == IF "Han" \in X THEN {"Latin"} ELSE {}
    IN X \cup J \cup K \cup C

\* the scripts of the label itself
Own(S, lab, w) == ScriptsOf(S, w) \subseteq Permitted(ScriptsOf(S, lab))
\* the scripts of one writing system, whichever it is
Unmixed(S, w) == \E s \in ScriptsOf(S, w) : ScriptsOf(S, w) \subseteq Permitted({s})
\* scripts that variants reach from the whole label
Reach(L, S, lab, i) == UNION {UNION {ScriptsOf(S, L.chars[k].vars[v].cp) : v \in DOMAIN L.chars[k].vars} : k \in At(L, lab, i)}
Other(L, S, lab) ==
    LET P == {i \in 0..(Len(lab) - 1) : FirstIn(L, lab[i + 1])} IN
    IF P = {} THEN {}
    ELSE {s \in UNION {Reach(L, S, lab, i) : i \in P} : \A i \in P : s \in Reach(L, S, lab, i)} \ Permitted(ScriptsOf(S, lab))
Wholly(S, w, s) == \A c \in Rng(w) : Script(S, c) = s

\* variants that must stay, and that may stay, when mixed-script ones are hidden
Stays(L, S, lab, w) == Own(S, lab, w) \/ \E s \in Other(L, S, lab) : Wholly(S, w, s)
MayStay(S, lab, w) == Own(S, lab, w) \/ Unmixed(S, w)

\* predicted number: choices within the scripts of the label, plus whole labels of each other script;
\* `loose` counts mappings holding common or inherited code points in the latter as well
RECURSIVE ProductOf(_)
ProductOf(ns) == IF ns = <<>> THEN 1 ELSE Head(ns) * ProductOf(Tail(ns))
RECURSIVE WholeSum(_, _, _, _, _)
WholeSum(L, S, chars, X, loose) ==
    IF X = {} THEN 0
    ELSE LET s == CHOOSE y \in X : TRUE
             Go(k) == Cardinality({v \in NonIdentity(L, k) :
                         IF loose THEN ScriptsOf(S, L.chars[k].vars[v].cp) \subseteq {s} ELSE Wholly(S, L.chars[k].vars[v].cp, s)})
         IN ProductOf([n \in DOMAIN chars |-> Go(chars[n])]) + WholeSum(L, S, chars, X \ {s}, loose)
Predicted(L, S, lab, loose) ==
    LET chars == Prelim(L, lab).chars
        Fit(k) == 1 + Cardinality({v \in NonIdentity(L, k) : Own(S, lab, L.chars[k].vars[v].cp)})
    IN ProductOf([n \in DOMAIN chars |-> Fit(chars[n])]) + WholeSum(L, S, chars, Other(L, S, lab), loose)
=============================================================================
