------------------------------- MODULE T_C21 --------------------------------
(* Recorded histories of metadata assignments and checks.                     *)
EXTENDS Meta, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)

Seen(m) == [date |-> m.date, vstart |-> m.vstart, vend |-> m.vend, uver |-> m.uver, langs |-> Map(m.langs, LAMBDA t : t.raw),
            scopes |-> m.scopes, version |-> m.version, desc |-> m.desc]
RECURSIVE Walk(_, _, _, _, _, _)
\* k: next step; must/may: tests recorded as failed so far
Walk(r, k, m, must, may, bad) ==
    IF k > Len(r.c.h) THEN bad
    ELSE LET e == r.c.h[k]
             o == r.o.res[k]
             s == Step(m, e)
             must2 == must \cup MustFail(m, e, r.o.today)
             may2 == may \cup must2 \cup MayFail(m, e, r.o.today)
             f == Failing({
               <<"refused-valid", s.ok => o.exc = "">>,
               <<"accepted-invalid", ~s.ok => o.exc # "">>,
               <<"documented-error", ~s.ok /\ o.exc # "" => o.exc = "LGRFormatException">>,
               <<"metadata", o.m = Seen(s.m)>>,
               <<"scripts", o.scripts = ScriptsOf(s.m.langs)>>,
               <<"scripts-repeat", o.scripts = o.scripts2>>,
               <<"recorded", must2 \subseteq Rng(o.failed) /\ Rng(o.failed) \subseteq may2>>,
               <<"recorded-run", /\ (e.op = "check" => Checked \subseteq Rng(o.ran)) /\ (e.op = "addlang" => "metadata_language" \in Rng(o.ran))
                                 /\ (Checked \cap Rng(o.ran) # {} => \E j \in 1..k : r.c.h[j].op = "check")
                                 /\ ("metadata_language" \in Rng(o.ran) => \E j \in 1..k : r.c.h[j].op \in {"addlang", "setlangs"})>>,
               <<"check-verdict", (e.op = "check" /\ Dated(m)) => o.ok = (Problems(m, r.o.today) = {})>>})
         IN IF f # {} THEN bad \cup {e.op \o ":" \o x : x \in f}
            ELSE Walk(r, k + 1, s.m, must2, may2, bad)
Fails(r) == IF r.o.exc # "" THEN {"raised"} ELSE Walk(r, 1, Fresh, {}, {}, {})
INSTANCE TraceRun
=============================================================================
