-------------------------------- MODULE Conf --------------------------------
(* The RFC 7940 conformance recorder.  Its history is a sequence of outcomes  *)
(* [t |-> test, ok |-> BOOLEAN]; a policy is a sequence of [t, p] with p in   *)
(* {"ERROR", "WARNING", "IGNORE"}.                                            *)
EXTENDS Base
Ran(h, t) == \E k \in DOMAIN h : h[k].t = t
Failed(h, t) == \E k \in DOMAIN h : h[k].t = t /\ ~h[k].ok
Line(h, q) ==
    IF ~Ran(h, q.t) THEN [t |-> q.t, head |-> "ERROR", tail |-> "NOT EXECUTED"]
    ELSE IF Failed(h, q.t) THEN [t |-> q.t, head |-> q.p, tail |-> "NOK"]
    ELSE [t |-> q.t, head |-> "PASS", tail |-> "OK"]
Lines(h, pol) == [k \in DOMAIN pol |-> Line(h, pol[k])]
Verdict(h, pol) ==
    IF \E k \in DOMAIN pol : Line(h, pol[k]).head = "ERROR" THEN "FAIL"
    ELSE IF \E k \in DOMAIN pol : Line(h, pol[k]).head = "WARNING" THEN "WARN"
    ELSE "PASS"
NoPolicy(h) == IF \E k \in DOMAIN h : ~h[k].ok THEN "FAIL" ELSE "PASS"
=============================================================================
