----------------------------- MODULE MC_Collide -----------------------------
(* Every LGR of closed variants over three code points (each absent or in one  *)
(* variant set) and every set of labels of at most two code points, up to a    *)
(* size: having the same index is the same as being variants of each other,    *)
(* the groups partition the labels of the repertoire, and full reports are     *)
(* always possible.  Printed for the real reports.                             *)
EXTENDS Collide, Json, IOUtils
VARIABLES g, xs
Par == JsonDeserialize(IOEnv.PAR)
N == 3
Layouts == {f \in [1..N -> 0..N] : \A k \in 1..N : f[k] = 0 \/ f[k] = 1 + Cardinality({f[j] : j \in 1..(k - 1)} \ {0})
                                                        \/ \E j \in 1..(k - 1) : f[j] = f[k]}
\* label number: 1..3 are single code points, 4..12 pairs
Lab(k) == IF k <= N THEN <<k>> ELSE <<((k - N - 1) \div N) + 1, ((k - N - 1) % N) + 1>>
Labels == N + N * N
LgrOf(f) == [chars |-> Map(SelectSeq([k \in 1..N |-> k], LAMBDA k : f[k] # 0),
                           LAMBDA k : [cp |-> <<k>>, when |-> "", nwhen |-> "", tags |-> <<>>,
                                       vars |-> Map(SelectSeq([j \in 1..N |-> j], LAMBDA j : f[j] = f[k] /\ j # k),
                                                    LAMBDA j : [cp |-> <<j>>, when |-> "", nwhen |-> "", type |-> "blocked"])]),
             classes |-> <<>>, rules |-> <<>>, actions |-> <<>>]
Init == g \in Layouts /\ xs = <<>>
Next == /\ Len(xs) < Par.size
        /\ \E k \in (IF xs = <<>> THEN 1 ELSE xs[Len(xs)] + 1)..Labels : xs' = Append(xs, k)
        /\ UNCHANGED g
Spec == Init /\ [][Next]_<<g, xs>>
X == {Lab(k) : k \in Rng(xs)}
Alike(x, y) == Len(x) = Len(y) /\ \A k \in DOMAIN x : g[x[k]] = g[y[k]]
Inside(x) == \A k \in DOMAIN x : g[x[k]] # 0
SameIndex == LET L == LgrOf(g) I == Index(L, X) IN
             /\ DOMAIN I = {x \in X : Inside(x)}
             /\ \A x \in DOMAIN I : \A y \in DOMAIN I : (I[x] = I[y]) = Alike(x, y)
VariantsCollide == LET L == LgrOf(g) IN \A x \in In(L, X) : \A y \in In(L, X) : x # y => (Alike(x, y) = (y \in {d.cp : d \in Derivations(L, x)}))
Partition == LET G == Groups(LgrOf(g), X) IN
             /\ UNION {G[n] : n \in DOMAIN G} = {x \in X : Inside(x)}
             /\ \A n \in DOMAIN G : \A m \in DOMAIN G : n # m => G[n] \cap G[m] = {}
FullReport == LET L == LgrOf(g) IN Symmetric(L, Groups(L, X))
Emit == (Par.emit /\ Len(xs) = Par.size) => PrintT(<<"CASE", ToJson([g |-> g, xs |-> xs])>>)
=============================================================================
