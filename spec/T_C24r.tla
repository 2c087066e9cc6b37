------------------------------ MODULE T_C24r -------------------------------
(* Recorded runs of the tool reviewing several tables against several        *)
(* references: the folder holds one report for each table and reference that *)
(* could be read, and it is the report of these two.                         *)
(* o.tables, o.refs: [n |-> file, ok |-> can be read]; o.files: the reports  *)
(* [n |-> file, pair |-> <<table, reference>> named in its header, same |->  *)
(* whether it is the review of the two].                                     *)
EXTENDS Base, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
Readable(fs) == {f.n : f \in {x \in Rng(fs) : x.ok}}
Name(t, r) == t \o "_" \o r \o ".json"
Expected(o) == {<<t, r>> : t \in Readable(o.tables), r \in Readable(o.refs)}
Fails(r) ==
    LET o == r.o IN
    IF o.skip THEN {}
    ELSE IF o.exc # "" THEN {"raised " \o o.exc}
    ELSE Failing({
        <<"reports", {f.n : f \in Rng(o.files)} = {Name(p[1], p[2]) : p \in Expected(o)}>>,
        <<"once", Len(o.files) = Cardinality(Expected(o))>>,
        <<"whose", \A f \in Rng(o.files) : \E p \in Expected(o) : f.n = Name(p[1], p[2]) /\ f.pair = p>>,
        <<"content", \A f \in Rng(o.files) : f.same>>,
        <<"inputs-modified", o.inputs>>})
INSTANCE TraceRun
=============================================================================
