------------------------------- MODULE T_C23 --------------------------------
(* Recorded readings and writings of labels and code points.                  *)
EXTENDS Notation, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)

\* one reading x = [v |-> text or code points, valid] of text t
Reads(t, keep, good, x, n) ==
    IF IsAce(t)
    THEN LET low == LowerText(SubSeq(t, 5, Len(t)))
             d == Decode(low)
         IN Failing({<<n \o "-a-label", x.valid => d.k = "ok" /\ x.v = d.v /\ Encode(d.v) = low>>,
                     <<n \o "-a-label-refused", good => x.valid>>,
                     <<n \o "-refused-as-is", ~x.valid => x.v = t>>})
    ELSE LET r == Plain(t, keep) IN
         CASE r.k = "ok" -> Failing({<<n \o "-value", x.valid /\ x.v = r.v>>})
           [] r.k = "bad" -> Failing({<<n \o "-malformed", ~x.valid>>, <<n \o "-as-is", x.v = t>>})
           [] OTHER -> {}

LabelFails(c, o) == UNION {Reads(c.text, c.keep, c.good, o.cps, "cps"), Reads(c.text, c.keep, c.good, o.str, "text"),
                           Failing({<<"raises", o.raised = ~o.cps.valid>>})}

CpFails(c, o) ==
    LET one == OneCp(c.text)
        all == CpList(c.text)
    IN Failing({<<"one", CASE one.k = "cp" -> o.one = <<one.v>> [] one.k = "bad" -> o.one = <<>> [] OTHER -> TRUE>>,
                <<"list", CASE all.k = "ok" -> o.lok /\ o.list = all.v [] all.k = "bad" -> ~o.lok [] OTHER -> TRUE>>})

FormatFails(c, o) ==
    LET X == Rng(c.cps) R == Runs(Increasing(X)) IN
    Failing({<<"format", o.fmt = Format(c.cps)>>,
             <<"one", c.cps # <<>> => o.one = UPlus(c.cps[1]) /\ o.hex = Hex4(c.cps[1])>>,
             <<"u-label", o.u = c.cps>>,
             <<"read-back", o.back = c.cps>>,
             <<"label-read-back", c.cps # <<>> => o.lback = c.cps>>,
             <<"ranges", NoDup(c.cps) => o.runs = R>>,
             <<"collapsed", NoDup(c.cps) => o.col = Collapsed(X)>>})

(* files *)
Clean(l) == Strip(DropLeft(l, {Bom}))
RECURSIVE FileRows(_, _)
FileRows(lines, keep) ==
    IF lines = <<>> THEN <<>>
    ELSE LET l == Clean(Head(lines))
             H == {k \in DOMAIN l : l[k] = 35}
             h == IF H = {} THEN 0 ELSE CHOOSE k \in H : \A j \in H : k <= j
             x == IF h = 0 THEN l ELSE Strip(SubSeq(l, 1, h - 1))
             rest == FileRows(Tail(lines), keep)
         IN IF h = 1 THEN (IF keep THEN <<[k |-> "note", t |-> l]>> ELSE <<>>) \o rest
            ELSE IF x = <<>> THEN rest ELSE <<[k |-> "label", t |-> x]>> \o rest
FileFails(c, o) ==
    LET R == FileRows(c.lines, c.keepc) IN
    IF Len(o.rows) # Len(R) /\ ~o.stopped THEN {"lines"}
    ELSE IF Len(o.rows) > Len(R) \/ (o.stopped /\ Len(o.rows) >= Len(R)) THEN {"stop"}
    ELSE UNION {LET x == o.rows[k] IN
                IF R[k].k = "note" THEN Failing({<<"note", x.orig = R[k].t /\ x.v = R[k].t /\ x.valid>>})
                ELSE Failing({<<"original", x.orig = R[k].t>>, <<"error", x.err = ~x.valid>>})
                     \cup Reads(R[k].t, FALSE, FALSE, x, "file") : k \in DOMAIN o.rows}
         \cup (IF o.stopped THEN LET t == R[Len(o.rows) + 1].t IN Failing({<<"stopped-on-valid", c.raise /\ (IsAce(t) \/ Plain(t, FALSE).k # "ok")>>})
               ELSE Failing({<<"not-stopped", c.raise => \A k \in DOMAIN o.rows : o.rows[k].valid>>}))

Fails(r) == CASE r.o.exc # "" -> {"raised"}
              [] r.c.k = "label" -> LabelFails(r.c, r.o)
              [] r.c.k = "cp" -> CpFails(r.c, r.o)
              [] r.c.k = "format" -> FormatFails(r.c, r.o)
              [] r.c.k = "file" -> FileFails(r.c, r.o)
INSTANCE TraceRun
=============================================================================
