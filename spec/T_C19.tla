------------------------------- MODULE T_C19 --------------------------------
(* Recorded imports of legacy tables: o is the projection of the LGR read.       *)
EXTENDS Import, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
AsVars(vs) == {vs[k] : k \in DOMAIN vs}
Entry(e) == [when |-> e.when, nwhen |-> e.nwhen, tags |-> e.tags, refs |-> e.refs, com |-> e.com, rng |-> e.rng, vars |-> AsVars(e.vars)]
Fails(r) ==
    LET c == r.c o == r.o IN
    IF o.exc # "" THEN {"raised " \o o.exc}
    ELSE LET x == TLCEval(Import(c.ls, [force |-> c.force]))
             got == [k \in {o.chars[j].cp : j \in DOMAIN o.chars} |-> Entry(o.chars[CHOOSE j \in DOMAIN o.chars : o.chars[j].cp = k])]
             same == DOMAIN got = DOMAIN x.st.E
         IN Failing({
              <<"code-points", same /\ Len(o.chars) = Cardinality(DOMAIN got)>>,
              <<"variants", same => \A k \in DOMAIN got : {v.cp : v \in got[k].vars} = {v.cp : v \in x.st.E[k].vars}>>,
              <<"entries", same => \A k \in DOMAIN got : got[k] = x.st.E[k] /\ Len(o.chars[CHOOSE j \in DOMAIN o.chars : o.chars[j].cp = k].vars) = Cardinality(got[k].vars)>>,
              <<"references", o.refs = x.st.R>>,
              <<"version", o.version = x.no /\ o.vcom = x.com>>,
              <<"date", o.date = x.date>>,
              <<"format", c.format = "" \/ o.parser = c.format>>,
              <<"nothing-else", o.more = 0>>})
INSTANCE TraceRun
=============================================================================
