------------------------------- MODULE MC_Meta ------------------------------
(* Every short history over a small set of assignments; printed for replay.  *)
EXTENDS Meta, Json, IOUtils
VARIABLES m, h
N == atoi(IOEnv.N)
Ops == JsonDeserialize(IOEnv.PAR).ops
vars == <<m, h>>
Init == m = Fresh /\ h = <<>>
Next == Len(h) < N /\ \E k \in DOMAIN Ops : m' = Step(m, Ops[k]).m /\ h' = Append(h, k)
Spec == Init /\ [][Next]_vars
Forced == \E k \in DOMAIN h : "force" \in DOMAIN Ops[h[k]] /\ Ops[h[k]].force
\* without force, the metadata never holds an invalid value
OnlyValid == Forced \/ (/\ \A f \in {"date", "vstart", "vend"} : m[f] = <<>> \/ ValidDate(m[f])
                        /\ ValidUnicodeVersion(m.uver)
                        /\ \A k \in DOMAIN m.langs : ValidTag(m.langs[k]))
Emit == Len(h) < N \/ PrintT(<<"CASE", ToJson(h)>>)
=============================================================================
