------------------------------ MODULE History -------------------------------
(* An LGR that is only asked questions.  The state is the LGR (`st`), the    *)
(* environment (`env`: logging configuration and global tables of the        *)
(* library) and the variant generators that are open, each with the position *)
(* it has reached.  No action changes st or env; the answer of an action is  *)
(* a function of the question (and position) alone.                          *)
EXTENDS Base

CONSTANTS Kinds,      \* names of the one-shot questions
          Slots,      \* generators that may be open at the same time
          MaxLen

VARIABLES st, env, gens, hist
vars == <<st, env, gens, hist>>
Closed == -1

HInit == /\ st = 0 /\ env = 0
         /\ gens = [s \in Slots |-> Closed]
         /\ hist = <<>>

Do(op, k, s) == /\ Len(hist) < MaxLen
                /\ hist' = Append(hist, [op |-> op, k |-> k, s |-> s])
                /\ UNCHANGED <<st, env>>
Ask(k)  == Do("ask", k, "") /\ UNCHANGED gens
Open(s) == Do("open", "", s) /\ gens[s] = Closed /\ gens' = [gens EXCEPT ![s] = 0]
Step(s) == Do("step", "", s) /\ gens[s] # Closed /\ gens' = [gens EXCEPT ![s] = @ + 1]
Drop(s) == Do("drop", "", s) /\ gens[s] # Closed /\ gens' = [gens EXCEPT ![s] = Closed]
HNext == \/ \E k \in Kinds : Ask(k)
         \/ \E s \in Slots : Open(s) \/ Step(s) \/ Drop(s)

HSpec == HInit /\ [][HNext]_vars
TypeOK == /\ st = 0 /\ env = 0
          /\ \A s \in Slots : gens[s] \in -1..MaxLen

(* ---- recorded histories ---- *)
\* steps: sequence of [q, a, st, env] : question (with position for generators), answer, state and environment afterwards
Functional(steps) == \A j, k \in DOMAIN steps : steps[j].q = steps[k].q => steps[j].a = steps[k].a
Alike(steps, ref) == \A k \in DOMAIN steps : \A j \in DOMAIN ref : ref[j].q = steps[k].q => ref[j].a = steps[k].a
Unchanged(x0, steps, f(_)) == \A k \in DOMAIN steps : f(steps[k]) = x0
=============================================================================
