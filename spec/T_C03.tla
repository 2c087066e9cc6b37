------------------------------- MODULE T_C03 --------------------------------
(* Recorded variant generation: o.all / o.valid are the results with and     *)
(* without invalid variants, o.chars those with entries, o.with the labels   *)
(* selected by an explicit filter.                                           *)
EXTENDS Lgr, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)

Cps(res) == [k \in DOMAIN res |-> res[k].cp]
\* the recorded result x is the disposition of some derivation of that label
Explained(D, x) == \E d \in D : d.cp = x.cp /\ d.disp = x.disp /\ d.idx = x.idx /\ d.types = Rng(x.types)

ListFails(L, lab, D, res, incl, n) ==
    LET init == SubSeq(res, 1, Len(res) - 1)
        shown == {d \in D : incl \/ d.disp # "invalid"}
        must == {c \in {d.cp : d \in shown} : \A d \in D : d.cp = c => d \in shown}
    IN IF res = <<>> THEN {n \o "-empty"}
       ELSE Failing({
         <<n \o "-original-last", res[Len(res)].cp = lab>>,
         <<n \o "-once", NoDup(Cps(res))>>,
         <<n \o "-original-disp",
             LET x == res[Len(res)]
                 own == {d \in shown : d.cp = lab}
                 e == Eligible(L, lab, FALSE)
             IN \/ Explained(own, x)
                \/ /\ own # {d \in D : d.cp = lab} \/ own = {}
                   /\ x.disp = e.disp /\ x.idx = e.idx /\ x.types = <<>>>>,
         <<n \o "-sound", \A k \in DOMAIN init : Explained(shown, init[k])>>,
         <<n \o "-complete", (must \ {lab}) \subseteq Rng(Cps(init))>>,
         <<n \o "-no-invalid", incl \/ \A k \in DOMAIN init : init[k].disp # "invalid">>})

LabelFails(L, lab, o) ==
    IF o.exc # "" THEN {"raised"}
    ELSE LET D == TLCEval(Derivations(L, lab)) IN
      ListFails(L, lab, D, o.all, TRUE, "all") \cup ListFails(L, lab, D, o.valid, FALSE, "valid")
      \cup Failing({
        <<"entries-complete", {d.cp : d \in D} \cup {lab} = Rng(Cps(o.chars))>>,
        <<"entries-explained", \A k \in DOMAIN o.chars : k < Len(o.chars) => Explained(D, o.chars[k])>>,
        <<"entries-spell", InRepertoire(L, lab) => \A k \in DOMAIN o.chars : FlatSeq(o.chars[k].es) = o.chars[k].cp>>,
        <<"filter", Rng(Cps(o.with)) = {c \in Rng(Cps(o.all)) : c \in Rng(o.wl)} \cup {lab}>>,
        <<"summary", o.sumok>>,
        <<"repeat", o.same>>})

Fails(r) == IF r.o.exc # "" THEN {"build"}
            ELSE UNION {LabelFails(r.c.L, r.c.labels[k], r.o.res[k]) : k \in DOMAIN r.c.labels}
INSTANCE TraceRun
=============================================================================
