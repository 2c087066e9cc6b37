------------------------------ MODULE Populate ------------------------------
(* What populating may do to the entries and mappings of a repertoire         *)
(* (C before, D after), and what harmonizing two populated relations yields.  *)
EXTENDS Variants
Same(v, w) == v.cp = w.cp /\ v.when = w.when /\ v.nwhen = w.nwhen
Between(C, a, b) == Reverse(C, b, a)               \* mappings a -> b
(* an unconditional mapping takes over a rule of its reverse, its other attributes stay *)
Survives(C, D, a, v) ==
    \/ v \in Rng(VarsOf(D, a))
    \/ /\ v.when = "" /\ v.nwhen = ""
       /\ \E w \in Rng(Between(D, a, v.cp)) :
             /\ w.type = v.type /\ w.refs = v.refs /\ w.com = v.com
             /\ \E x \in Rng(Between(D, v.cp, a)) : x.when = w.when /\ x.nwhen = w.nwhen
IsOld(C, a, w) == \E v \in Rng(VarsOf(C, a)) : Same(v, w)
                                             \/ (v.cp = w.cp /\ v.when = "" /\ v.nwhen = "" /\ v.type = w.type /\ v.refs = w.refs /\ v.com = w.com)
AddedOk(D, a, w) == /\ w.type = "blocked" /\ w.refs = <<>> /\ w.com = ""
                    /\ (w.when # "" \/ w.nwhen # "") => \E x \in Rng(Between(D, w.cp, a)) : x.when = w.when /\ x.nwhen = w.nwhen
(* the smallest closure: a mapping is only added between entries without one, or to mirror a rule none of them has *)
Needed(C, D, a, w) == IF w.when = "" /\ w.nwhen = "" THEN Between(C, a, w.cp) = <<>> /\ Len(Between(D, a, w.cp)) = 1
                      ELSE \A v \in Rng(Between(C, a, w.cp)) : (w.when # "" => v.when = "") /\ (w.nwhen # "" => v.nwhen = "")
Plain(n) == n.rng = <<>> /\ n.when = "" /\ n.nwhen = "" /\ n.tags = <<>> /\ n.refs = <<>> /\ n.com = ""
Bare(n) == [n EXCEPT !.vars = <<>>]
Ends(P) == UNION {{q[1], q[2]} : q \in P}
(* a range that a mapping leads into is written out, code point by code point *)
Opened(P, n) == n.rng # <<>> /\ \E x \in Ends(P) : Len(x) = 1 /\ n.rng[1] <= x[1] /\ x[1] <= n.rng[2]
Kept(P, n) == IF Opened(P, n) THEN [Bare(n) EXCEPT !.rng = <<>>] ELSE Bare(n)
Wanted(C) == Nodes(C) \cup {m[2].cp : m \in Mappings(C)}
RuleMirrored(D) == \A m \in Mappings(D) : LET R == Between(D, m[2].cp, m[1]) IN
                      /\ m[2].when # "" => \E x \in Rng(R) : x.when # ""
                      /\ m[2].nwhen # "" => \E x \in Rng(R) : x.nwhen # ""
Unique(D) == \A k \in DOMAIN D : \A a, b \in DOMAIN D[k].vars : Same(D[k].vars[a], D[k].vars[b]) => a = b

(* ------------------------------ harmonizing ------------------------------ *)
(* A graph is [n: entries, p: pairs].                                         *)
Off(P) == {q \in P : q[1] # q[2]}
Graph(C) == [n |-> Nodes(C), p |-> Pairs(C)]
Pop(G) == [n |-> G.n \cup Ends(G.p), p |-> Closure(G.p)]
(* G takes over the mappings H has on the entries they share; an entry that    *)
(* comes with them gets an identity mapping, being outside G's repertoire      *)
Take(G, H) == LET from == {q \in Off(H.p) : q[1] \in G.n /\ q[1] \in H.n}
                  P == Closure(G.p \cup from)
                  new == Ends(P) \ G.n
              IN [n |-> G.n \cup new, p |-> P \cup {<<x, x>> : x \in new}]
Harm(G, H) == Take(Pop(G), Pop(H))
HarmRz(G, H, R) == Take(Harm(G, R), Harm(H, R))
Shared(G, H, S) == {q \in Off(G.p) : q[1] \in S /\ q[2] \in S}
Agree(G, H) == LET S == G.n \cap H.n IN Shared(G, H, S) = Shared(H, G, S)

(* what harmonizing may do to the entries of one side: C before, D after *)
OutOfRep(w) == w.type = "out-of-repertoire" /\ w.when = "" /\ w.nwhen = "" /\ w.refs = <<>>
HarmNewOk(D, a, w) == AddedOk(D, a, w) \/ (a = w.cp /\ OutOfRep(w))
Side(C, D, want, own) ==
    { <<"entries", Nodes(D) = want.n /\ NoDup(D)>>,
      <<"entries-kept", \A k \in DOMAIN C : \E j \in DOMAIN D : [Bare(D[j]) EXCEPT !.rng = <<>>] = [Bare(C[k]) EXCEPT !.rng = <<>>]>>,
      <<"relation", Pairs(D) = want.p>>,
      <<"mappings-kept", \A m \in Mappings(C) : Survives(C, D, m[1], m[2])>>,
      <<"mappings-added", \A m \in Mappings(D) : IsOld(C, m[1], m[2]) \/ HarmNewOk(D, m[1], m[2])>>,
      <<"mappings-needed", \A m \in Mappings(D) : IsOld(C, m[1], m[2]) \/ Needed(C, D, m[1], m[2])>>,
      <<"entries-added", \A j \in DOMAIN D : D[j].cp \notin Nodes(C) => Plain([D[j] EXCEPT !.com = ""])>>,
      <<"ranges-expanded", \A j \in DOMAIN D : D[j].rng = <<>>>>,
      <<"out-of-repertoire-marked", \A j \in DOMAIN D : D[j].cp \notin own.n =>
            \E w \in Rng(Between(D, D[j].cp, D[j].cp)) : OutOfRep(w)>>,
      <<"mappings-unique", Unique(D)>> }
=============================================================================
