------------------------------- MODULE T_C31 --------------------------------
(* Recorded scripts of labels, script codes, language tags, and metadata whose *)
(* languages change between the questions.                                    *)
EXTENDS Tags, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)

MetaFails(c, o) ==
    UNION {LET ts == c.steps[k] IN
           Failing({<<"strict", (\A n \in DOMAIN ts : Standard(ts[n])) => Rng(o.steps[k].strict) = UNION {MetaScripts(ts[n]) : n \in DOMAIN ts}>>,
                    <<"lenient", (\A n \in DOMAIN ts : ts[n].long = "") => Rng(o.steps[k].lenient) = UNION {MetaScripts(ts[n]) : n \in DOMAIN ts}>>,
                    <<"repeat", o.steps[k].same>>}) : k \in DOMAIN c.steps}
Fails(r) == CASE r.o.exc # "" -> {"raised"}
              [] r.c.k = "label" -> Failing({<<"label-script", r.o.script \in LabelScripts(r.c.scripts, r.c.sign)>>})
              [] r.c.k = "iso" -> Failing({<<"script-code", Rng(r.o.scripts) = Unicode(r.c.code) /\ NoDup(r.o.scripts)>>})
              [] r.c.k = "tag" -> Failing({<<"language", r.o.plain[1] = TagLanguage(r.c.tag) /\ r.o.sup[1] = TagLanguage(r.c.tag)>>,
                                           <<"script", r.o.plain[2] = TagScript(r.c.tag, FALSE)>>,
                                           <<"default-script", r.o.sup[2] = TagScript(r.c.tag, TRUE)>>})
              [] r.c.k = "meta" -> MetaFails(r.c, r.o)
INSTANCE TraceRun
=============================================================================
