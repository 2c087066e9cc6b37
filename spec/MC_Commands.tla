---------------------------- MODULE MC_Commands -----------------------------
(* Every session of a few commands over a folder holding two LGRs, a third     *)
(* that the schema refuses, a legacy table and a file that is neither: which   *)
(* commands are refused, what they write, and what stays.  Printed for replay. *)
EXTENDS Commands, Json, IOUtils
VARIABLES fs, hist, before
Par == JsonDeserialize(IOEnv.PAR)
Lgr(v) == [k |-> "lgr", valid |-> v]
Start == [n \in {"a.xml", "b.xml", "v.xml", "t.txt", "x.xml", "none.xml"} |->
            CASE n = "t.txt" -> [k |-> "table"] [] n = "x.xml" -> [k |-> "bad"] [] n = "none.xml" -> [k |-> "none"] [] OTHER -> Lgr(n # "v.xml")]
No(c) == Misused(c) \/ (\E n \in Rng(Given(c)) : n \notin DOMAIN fs) \/ Unreadable(c, fs)
Outs(c) == Written(c) \cup (IF ~c.opt /\ c.out # "" THEN {c.out} ELSE {})
Init == fs = Start /\ hist = <<>> /\ before = Start
Next == /\ Len(hist) < Par.size
        /\ \E k \in DOMAIN Par.cmds :
             LET c == Par.cmds[k] IN
             /\ \A n \in Rng(Given(c)) : n \in DOMAIN fs
             /\ hist' = Append(hist, k)
             /\ before' = fs
             /\ fs' = IF No(c) THEN fs ELSE [n \in DOMAIN fs \cup Outs(c) |-> IF n \in Outs(c) THEN Lgr(TRUE) ELSE fs[n]]
Spec == Init /\ [][Next]_<<fs, hist, before>>
Last == Par.cmds[hist[Len(hist)]]
\* only what the command names as its output changes; what was there stays there
Frame == hist # <<>> => /\ DOMAIN before \subseteq DOMAIN fs
                        /\ \A n \in DOMAIN before : fs[n] # before[n] => n \in Outs(Last)
                        /\ \A n \in DOMAIN fs \ DOMAIN before : n \in Outs(Last)
\* what a command wrote, the next can read
Usable == \A n \in DOMAIN fs : (n \notin DOMAIN Start \/ fs[n] # Start[n]) => fs[n].k = "lgr"
\* a command on sets never writes a combination of single LGRs, and reading is monotone in the folder
Emit == (hist # <<>> /\ (Len(hist) = Par.size)) => PrintT(<<"CASE", ToJson(hist)>>)
=============================================================================
