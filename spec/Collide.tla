------------------------------ MODULE Collide -------------------------------
(* Collisions among a set X of labels (sequences of code points) and a set T   *)
(* of existing top level domains under an LGR.                                 *)
EXTENDS Lgr

In(L, X) == TLCEval({x \in X : InRepertoire(L, x)})
Index(L, X) == TLCEval([x \in In(L, X) |-> IndexLabel(L, x)])
\* primary labels: index -> labels
Groups(L, X) == LET I == Index(L, X) IN TLCEval([n \in {I[x] : x \in DOMAIN I} |-> {x \in DOMAIN I : I[x] = n}])
Colliding(G) == {n \in DOMAIN G : Cardinality(G[n]) > 1}
\* what a primary label may say about a label: the possible dispositions, none if it is not one of its variants
Derived(L, P) == TLCEval([p \in P |-> TLCEval(Derivations(L, p))])
Disps(L, D, p, q) == LET S == {d.disp : d \in {x \in D[p] : x.cp = q}} IN IF S = {} /\ p = q THEN {Eligible(L, p, FALSE).disp} ELSE S
Members(D, P) == P \cup UNION {{d.cp : d \in D[p]} : p \in P}
\* every member is a variant of every primary label
Complete(D, P) == \A p \in P : \A q \in Members(D, P) : q = p \/ \E d \in D[p] : d.cp = q
UPairs(S) == {{x, y} : <<x, y>> \in {p \in S \X S : p[1] # p[2]}}

\* ------------------------------------------------ the table of collisions
\* o: sequence of [index, entries]; an entry: [lab, cat, disp: sequence of <<primary, disposition>>]
TableFails(L, X, quiet, o) ==
    LET G == Groups(L, X)
        K == Colliding(G)
        T == [n \in {o[k].index : k \in DOMAIN o} |-> o[CHOOSE k \in DOMAIN o : o[k].index = n].entries]
        EntryOK(P, D, e) == /\ \A k \in DOMAIN e.disp : e.disp[k][1] \in P /\ e.disp[k][2] \in (IF quiet /\ e.disp[k][1] = e.lab THEN {"-"} ELSE Disps(L, D, e.disp[k][1], e.lab))
                            /\ {e.disp[k][1] : k \in DOMAIN e.disp} = (IF quiet THEN {e.lab} ELSE {p \in P : Disps(L, D, p, e.lab) # {}})
    IN Failing({
      <<"collisions", DOMAIN T = K /\ Cardinality(K) = Len(o)>>,
      <<"members", \A n \in K \cap DOMAIN T : {e.lab : e \in Rng(T[n])} = G[n] /\ Len(T[n]) = Cardinality(G[n])>>,
      <<"categories", \A n \in K \cap DOMAIN T : \A e \in Rng(T[n]) : e.cat = "Primary">>,
      <<"dispositions", \A n \in K \cap DOMAIN T : LET D == IF quiet THEN <<>> ELSE Derived(L, G[n]) IN
            {e.lab : e \in Rng(T[n])} = G[n] => \A e \in Rng(T[n]) : EntryOK(G[n], D, e)>>})

\* ------------------------------------------------ the short report
ShortFails(L, X, T, o) ==
    LET I == Index(L, X \cup T)
        Same(x, y) == x \in DOMAIN I /\ y \in DOMAIN I /\ I[x] = I[y] /\ x # y
        LL == {p \in UPairs(X \cap DOMAIN I) : \A x \in p : \A y \in p : x = y \/ Same(x, y)}
        LT == {<<x, t>> \in X \X T : Same(x, t)}
        rl == [k \in DOMAIN o.labels |-> {o.labels[k][1], o.labels[k][2]}]
    IN Failing({
      <<"label-collisions", Rng(rl) = LL /\ Len(o.labels) = Cardinality(LL)>>,
      <<"tld-collisions", Rng(o.tlds) = LT /\ Len(o.tlds) = Cardinality(LT)>>,
      <<"are-tlds", Rng(o.are) = X \cap T /\ NoDup(o.are)>>,
      <<"not-in-lgr", Rng(o.notin) = X \ In(L, X) /\ NoDup(o.notin)>>,
      <<"no-collision", o.none = (LL = {} /\ LT = {} /\ X \cap T = {})>>})

\* ------------------------------------------------ the full report
\* blocks: sequence of [a, ca, b, cb, col]
BlocksFails(G, X, T, blocks) ==
    LET LL == UNION {UPairs(G[n] \cap X) : n \in DOMAIN G}
        LT == UNION {{{x, t} : <<x, t>> \in {p \in (G[n] \cap X) \X (G[n] \cap T) : p[1] # p[2]}} : n \in DOMAIN G}
        Times(p) == Cardinality({k \in DOMAIN blocks : {blocks[k].a, blocks[k].b} = p})
        Cat(x) == IF x \in X THEN "Primary" ELSE "TLD"
    IN Failing({
      <<"collisions", {{blocks[k].a, blocks[k].b} : k \in DOMAIN blocks} = LL \cup LT>>,
      <<"once", \A p \in LL \cup LT : Times(p) <= 1 + Cardinality(p \cap X \cap T)>>,
      <<"categories", \A k \in DOMAIN blocks : blocks[k].ca = Cat(blocks[k].a) /\ blocks[k].cb = Cat(blocks[k].b)
                      /\ (blocks[k].col = IF "TLD" \in {blocks[k].ca, blocks[k].cb} THEN "existing TLDs" ELSE "input file")>>})
\* dump: sequence of [lab, entries: sequence of <<category, label, disposition>>, counts: sequence of <<disposition, number>>]
DumpFails(L, G, X, dump) ==
    LET P(n) == G[n]
        One(d) == LET n == CHOOSE m \in DOMAIN G : d.lab \in G[m]
                      D == Derived(L, G[n])
                      M == Members(D, G[n])
                      Given(q) == {d.entries[k][3] : k \in {j \in DOMAIN d.entries : d.entries[j][2] = q}}
                  IN /\ {e[2] : e \in Rng(d.entries)} = M \ {d.lab} /\ Len(d.entries) = Cardinality(M \ {d.lab})
                     /\ \A e \in Rng(d.entries) : e[3] \in Disps(L, D, d.lab, e[2]) /\ (e[1] = IF e[2] \notin G[n] THEN "Variant" ELSE IF e[2] \in X THEN "Primary" ELSE "TLD")
                     /\ \E own \in Disps(L, D, d.lab, d.lab) :
                            LET all == Map(d.entries, LAMBDA e : e[3]) \o <<own>>
                            IN {<<x, Len(SelectSeq(all, LAMBDA y : y = x))>> : x \in Rng(all)} = Rng(d.counts) /\ NoDup(d.counts)
    IN IF {d.lab : d \in Rng(dump)} # UNION {G[n] \cap X : n \in DOMAIN G} \/ Len(dump) # Cardinality({d.lab : d \in Rng(dump)}) THEN {"dump-labels"}
       ELSE Failing({<<"dump", \A d \in Rng(dump) : One(d)>>})
Symmetric(L, G) == \A n \in DOMAIN G : Complete(Derived(L, G[n]), G[n])
FullFails(L, X, T, dumped, quiet, o) ==
    LET Y == X \cup (T \ X)
        G == Groups(L, Y)
        V == IF dumped THEN G ELSE [n \in Colliding(G) |-> G[n]]
        Full == IF dumped THEN Symmetric(L, G) ELSE TRUE
    IN IF o.exc # "" THEN IF o.exc = "InvalidSymmetry" /\ ~Full THEN {} ELSE {"raised " \o o.exc}
       ELSE BlocksFails(G, X, T, o.blocks) \cup (IF dumped THEN DumpFails(L, G, X, o.dump) ELSE {}) \cup Failing({
      <<"indexes", Rng(o.indexes) = DOMAIN V /\ NoDup(o.indexes)>>,
      <<"are-tlds", Rng(o.are) = X \cap T /\ NoDup(o.are)>>,
      <<"not-in-lgr", Rng(o.notin) = X \ In(L, X) /\ NoDup(o.notin)>>,
      <<"no-collision", o.none = (\A n \in DOMAIN G : Cardinality(G[n] \cap X) < 2)>>})

\* ------------------------------------------------ the differences between two LGRs
\* o.labels: sequence of [lab, changes: seq of <<category, label, d2, d1>>, same, new: seq of <<category, label>>, removed, none]
DiffFails(L1, L2, X, collisions, dumped, o) ==
    LET G1 == Groups(L1, X) G2 == Groups(L2, X)
        I1 == In(L1, X) I2 == In(L2, X)
        D1 == Derived(L1, I1) D2 == Derived(L2, I2)
        Of(G, p) == G[CHOOSE n \in DOMAIN G : p \in G[n]]
        M1(p) == Members(D1, Of(G1, p)) M2(p) == Members(D2, Of(G2, p))
        Full == Symmetric(L1, G1) /\ Symmetric(L2, G2)
        Cat(P, q) == IF q \in P THEN "Primary" ELSE "Variant"
        One(e) ==
          LET p == e.lab
              Both == M1(p) \cap M2(p)
              Sure(q) == Disps(L1, D1, p, q) \cap Disps(L2, D2, p, q) = {}
              May(q) == \E x \in Disps(L1, D1, p, q) : \E y \in Disps(L2, D2, p, q) : x # y
              C == {e.changes[k][2] : k \in DOMAIN e.changes}
          IN Failing({
              <<"changes", {q \in Both : Sure(q)} \subseteq C /\ C \subseteq {q \in Both : May(q)} /\ Len(e.changes) = Cardinality(C)
                           /\ \A c \in Rng(e.changes) : c[1] = Cat(Of(G2, p), c[2]) /\ c[3] \in Disps(L2, D2, p, c[2]) /\ c[4] \in Disps(L1, D1, p, c[2])>>,
              <<"no-change", e.same = (e.changes = <<>>)>>,
              <<"new", Rng(e.new) = {<<Cat(Of(G2, p), q), q>> : q \in M2(p) \ M1(p)} /\ NoDup(e.new)>>,
              <<"removed", Rng(e.removed) = {<<Cat(Of(G1, p), q), q>> : q \in M1(p) \ M2(p)} /\ NoDup(e.removed)>>,
              <<"no-new", e.none = (e.new = <<>> /\ e.removed = <<>>)>>})
    IN IF o.exc # "" THEN IF o.exc = "InvalidSymmetry" /\ ~Full THEN {} ELSE {"raised " \o o.exc}
       ELSE Failing({
          <<"compared", {e.lab : e \in Rng(o.labels)} = I1 \cap I2 /\ Len(o.labels) = Cardinality(I1 \cap I2)>>,
          <<"not-in-first", Rng(o.notin1) = X \ I1 /\ NoDup(o.notin1)>>,
          <<"not-in-second", Rng(o.notin2) = X \ I2 /\ NoDup(o.notin2)>>})
          \cup UNION {IF e.lab \in I1 \cap I2 THEN One(e) ELSE {} : e \in Rng(o.labels)}
          \cup (IF ~collisions THEN {} ELSE
                  {"first " \o f : f \in BlocksFails(G1, X, {}, o.c1.blocks) \cup (IF dumped THEN DumpFails(L1, G1, X, o.c1.dump) ELSE {})}
                  \cup {"second " \o f : f \in BlocksFails(G2, X, {}, o.c2.blocks) \cup (IF dumped THEN DumpFails(L2, G2, X, o.c2.dump) ELSE {})})

\* ------------------------------------------------ the checking tool: labels against reference labels
\* o: sequence of [lab, answer: "collision" | "none" | "out", with]
ToolFails(L, refs, X, o) ==
    LET I == Index(L, Rng(refs) \cup Rng(X)) IN
    Failing({<<"tool-labels", Map(o, LAMBDA e : e.lab) = X>>,
             <<"tool-answers", \A e \in Rng(o) :
                 LET R == IF e.lab \in DOMAIN I THEN {r \in Rng(refs) \cap DOMAIN I : I[r] = I[e.lab]} ELSE {} IN
                 IF e.lab \notin DOMAIN I THEN e.answer = "out"
                 ELSE IF R = {} THEN e.answer = "none" ELSE e.answer = "collision" /\ e.with \in R>>})
=============================================================================
