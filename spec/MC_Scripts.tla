----------------------------- MODULE MC_Scripts -----------------------------
(* The walk that hides mixed-script variants, one entry of the label at a     *)
(* time with the scripts allowed from there on, against its meaning: every    *)
(* pair of variant sets taken from a pool of targets (several scripts, common *)
(* ones, targets that mix) for the two entries of the repertoire, optionally  *)
(* with a sequence of both.  Printed for the real code.                       *)
EXTENDS Scripts, Json, IOUtils
VARIABLES va, vb, lab
Par == JsonDeserialize(IOEnv.PAR)        \* [pool |-> targets, scripts |-> table, labels, seq |-> entry <<1, 2>> with the pool of b, emit]
S == Par.scripts
Var(cp) == [cp |-> cp, when |-> "", nwhen |-> "", type |-> "blocked"]
VarSeq(X) == Map(SelectSeq([k \in DOMAIN Par.pool |-> k], LAMBDA k : k \in X), LAMBDA k : Var(Par.pool[k]))
Entry(cp, X) == [cp |-> cp, when |-> "", nwhen |-> "", tags |-> <<>>, vars |-> VarSeq(X)]
L == [chars |-> <<Entry(<<1>>, va), Entry(<<2>>, vb)>> \o (IF Par.seq THEN <<Entry(<<1, 2>>, vb)>> ELSE <<>>),
      classes |-> <<>>, rules |-> <<>>, actions |-> <<>>]
Init == va \in SUBSET (DOMAIN Par.pool) /\ vb \in SUBSET (DOMAIN Par.pool) /\ lab \in Rng(Par.labels)
Next == UNCHANGED <<va, vb, lab>>
Spec == Init /\ [][Next]_<<va, vb, lab>>

Fit(w, X) == ScriptsOf(S, w) \subseteq X
\* one letter at a time; X: scripts allowed from here on
RECURSIVE Walk(_, _, _, _, _)
Walk(rest, pre, X, O, hasVar) ==
    IF rest = <<>> THEN {}
    ELSE LET first == pre = <<>> IN
         UNION {LET e == L.chars[k]
                    n == Len(e.cp)
                    \* mapping, and the scripts it leaves
                    own == {[cp |-> e.vars[v].cp, x |-> X, v |-> TRUE] : v \in {v \in DOMAIN e.vars : Fit(e.vars[v].cp, X)}}
                    cross == {[cp |-> e.vars[v].cp, x |-> Permitted({CHOOSE s \in ScriptsOf(S, e.vars[v].cp) : TRUE}), v |-> TRUE] :
                                 v \in {v \in DOMAIN e.vars : first /\ ~Fit(e.vars[v].cp, X) /\ Fit(e.vars[v].cp, O)}}
                    keep == IF first \/ Fit(e.cp, X) THEN {[cp |-> e.cp, x |-> X, v |-> FALSE]} ELSE {}
                    moves == {m \in own \cup cross : Fit(m.cp, m.x)} \cup keep
                IN IF Len(rest) > n
                   THEN UNION {{m.cp \o w : w \in Walk(DropN(rest, n), pre \o m.cp, m.x, O, m.v \/ hasVar)} : m \in moves}
                   ELSE IF hasVar \/ e.vars # <<>> THEN {m.cp : m \in moves} ELSE {} : k \in Bases(L, rest, pre)}
Shown == Walk(lab, <<>>, Permitted(ScriptsOf(S, lab)), Other(L, S, lab), FALSE) \ {lab}
Full == {g.cp : g \in Permute(L, lab, <<>>, FALSE)} \ {lab}
Within == Shown \subseteq {w \in Full : MayStay(S, lab, w)}
Complete == {w \in Full : Stays(L, S, lab, w)} \subseteq Shown
Emit == Par.emit => PrintT(<<"CASE", ToJson([va |-> va, vb |-> vb, lab |-> lab])>>)
=============================================================================
