------------------------------ MODULE MC_Rules ------------------------------
(* Every rule body of up to Par.size of the given matchers, asked of every    *)
(* label and of every position of it.  Reading the rule and the label         *)
(* backwards changes nothing: look-ahead and look-behind, start and end swap. *)
EXTENDS Rules, Json, IOUtils
VARIABLES b
Reverse(q) == [k \in DOMAIN q |-> q[Len(q) + 1 - k]]
Par == JsonDeserialize(IOEnv.PAR)                 \* [L, atoms, size, alpha, len]
Labels == UNION {[1..n -> Rng(Par.alpha)] : n \in 0..Par.len}
Body == [k \in DOMAIN b |-> Par.atoms[b[k]]]

RECURSIVE Back(_), BackSeq(_)
BackSeq(ks) == IF ks = <<>> THEN <<>> ELSE Append(BackSeq(Tail(ks)), Back(Head(ks)))
Back(n) == CASE n.t = "start"  -> [n EXCEPT !.t = "end"]
             [] n.t = "end"    -> [n EXCEPT !.t = "start"]
             [] n.t = "char"   -> [n EXCEPT !.cps = Reverse(@)]
             [] n.t = "ahead"  -> [n EXCEPT !.t = "behind", !.kids = BackSeq(@)]
             [] n.t = "behind" -> [n EXCEPT !.t = "ahead", !.kids = BackSeq(@)]
             [] n.t = "rule"   -> [n EXCEPT !.kids = BackSeq(@)]
             [] n.t = "choice" -> [n EXCEPT !.kids = [k \in DOMAIN @ |-> Back(@[k])]]
             [] OTHER -> n
Init == b = <<>>
Next == Len(b) < Par.size /\ \E k \in DOMAIN Par.atoms : b' = Append(b, k)
Spec == Init /\ [][Next]_b

\* a context rule in the usual form: the anchor among conditions of no width
Contextual == /\ Cardinality({k \in DOMAIN b : Body[k].t = "anchor"}) = 1
              /\ \A k \in DOMAIN b : Body[k].t \in {"anchor", "start", "end", "ahead", "behind"}
Mirror == LET R == BackSeq(Body) IN
    \A x \in Labels : LET y == Reverse(x) IN
        /\ MatchesLabel(Par.L, Body, x) = MatchesLabel(Par.L, R, y)
        /\ Contextual => \A i \in 0..(Len(x) - 1) : \A n \in 1..2 : i + n <= Len(x) =>
              MatchesContext(Par.L, Body, x, Slice(x, i + 1, i + n), i) = MatchesContext(Par.L, R, y, Reverse(Slice(x, i + 1, i + n)), Len(x) - i - n)
Emit == b # <<>> => PrintT(<<"CASE", ToJson(b)>>)
=============================================================================
