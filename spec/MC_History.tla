----------------------------- MODULE MC_History -----------------------------
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds, Slots, MaxLen
VARIABLES st, env, gens, hist
H == INSTANCE History
Spec == H!HSpec
TypeOK == H!TypeOK
Emit == (Len(hist) = MaxLen) => PrintT(<<"CASE", ToJson(hist)>>)
=============================================================================
