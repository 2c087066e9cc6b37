------------------------------ MODULE MC_Conf -------------------------------
(* Every history of at most N outcomes over two tests, and every policy over  *)
(* three tests (one never run).  Each history is printed for the real code.   *)
EXTENDS Conf, Json, IOUtils
VARIABLE h
N == IF IOEnv.N = "5" THEN 5 ELSE 4
Tests == {"a", "b"}
Pols == {"-", "ERROR", "WARNING", "IGNORE"}
Init == h = <<>>
Next == Len(h) < N /\ \E t \in Tests, ok \in BOOLEAN : h' = Append(h, [t |-> t, ok |-> ok])
Spec == Init /\ [][Next]_h
One(t, p) == IF p = "-" THEN <<>> ELSE <<[t |-> t, p |-> p]>>
Policies == {One("a", x) \o One("b", y) \o One("c", z) : x \in Pols, y \in Pols, z \in {"-", "IGNORE"}}
Rank(v) == CASE v = "PASS" -> 0 [] v = "WARN" -> 1 [] v = "FAIL" -> 2
PosRank(p) == CASE p = "IGNORE" -> 0 [] p = "WARNING" -> 1 [] p = "ERROR" -> 2
(* a failure is never forgotten, in any order; a policy of only errors over every test agrees with no policy *)
Sticky == \A a, b \in DOMAIN h : LET sw == [h EXCEPT ![a] = h[b], ![b] = h[a]] IN
             \A pol \in Policies : Verdict(sw, pol) = Verdict(h, pol) /\ NoPolicy(sw) = NoPolicy(h)
Agree == LET pol == One("a", "ERROR") \o One("b", "ERROR") IN
             (Ran(h, "a") /\ Ran(h, "b")) => Verdict(h, pol) = NoPolicy(h)
Monotone == \A p \in Policies, q \in Policies :
             (Len(p) = Len(q) /\ \A k \in DOMAIN p : p[k].t = q[k].t /\ PosRank(p[k].p) <= PosRank(q[k].p))
                 => Rank(Verdict(h, p)) <= Rank(Verdict(h, q))
Emit == PrintT(<<"CASE", ToJson(h)>>)
=============================================================================
