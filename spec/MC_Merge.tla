----------------------------- MODULE MC_Merge -------------------------------
(* Sets of 2 or 3 members whose variants are closed (every code point of a     *)
(* variant set is a variant of the others): the merge of the variant sets, one *)
(* member after the other, as the tool works, is the closure of all of them,   *)
(* whatever the order; and the members are printed for the real merge.         *)
EXTENDS Base, Json, IOUtils
VARIABLES ms
Par == JsonDeserialize(IOEnv.PAR)
N == Par.nodes
Size == Par.members
Nodes == 1..N
\* a member: each node is absent (0) or in the variant set of its number; numbered in order of appearance
Partitions == {f \in [Nodes -> 0..N] : \A k \in Nodes : f[k] = 0 \/ f[k] = 1 + Cardinality({f[j] : j \in 1..(k - 1)} \ {0})
                                                        \/ \E j \in 1..(k - 1) : f[j] = f[k]}
Pairs(f) == {<<x, y>> \in Nodes \X Nodes : f[x] # 0 /\ f[x] = f[y] /\ x # y}
Sym(R) == R \cup {<<p[2], p[1]>> : p \in R}
RECURSIVE Close(_)
Close(R) == LET R2 == R \cup {<<p[1], q[2]>> : <<p, q>> \in {pq \in R \X R : pq[1][2] = pq[2][1] /\ pq[1][1] # pq[2][2]}} IN IF R2 = R THEN R ELSE Close(R2)
\* one step of the tool: at every shared code point where both sides have other variants, all of them are variants of each other;
\* what overlaps is put together
Groups(E, R, both) == {{x} \cup {p[2] : p \in {q \in E \cup R : q[1] = x}} :
                         x \in {y \in both : {p \in E : p[1] = y} \ R # {} /\ {p \in R : p[1] = y} \ E # {}}}
RECURSIVE Glue(_)
Glue(G) == IF \E g \in G : \E h \in G : g # h /\ g \cap h # {}
           THEN LET g == CHOOSE g \in G : \E h \in G : g # h /\ g \cap h # {}
                    h == CHOOSE h \in G : g # h /\ g \cap h # {}
                IN Glue((G \ {g, h}) \cup {g \cup h})
           ELSE G
Step(E, dom, f) == E \cup Pairs(f) \cup UNION {{<<x, y>> \in g \X g : x # y} : g \in Glue(Groups(E, Pairs(f), {k \in Nodes : f[k] # 0} \cap dom))}
Dom(f) == {k \in Nodes : f[k] # 0}
RECURSIVE Run(_, _, _)
Run(E, dom, s) == IF s = <<>> THEN E ELSE Run(Step(E, dom, Head(s)), dom \cup Dom(Head(s)), Tail(s))
Init == ms = <<>>
Next == Len(ms) < Size /\ \E f \in Partitions : ms' = Append(ms, f)
Spec == Init /\ [][Next]_ms
ClosedUnion == Len(ms) >= 2 => Run({}, {}, ms) = Close(UNION {Pairs(ms[k]) : k \in DOMAIN ms})
Emit == (Par.emit /\ Len(ms) = Size) => PrintT(<<"CASE", ToJson(ms)>>)
=============================================================================
