------------------------------ MODULE TraceIdent ------------------------------
(***************************************************************************)
(* Recorded comparisons of handles, checked against Identity (as TraceSeq  *)
(* does for ChanOps).                                                      *)
(***************************************************************************)
EXTENDS Identity, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, S
tvars == <<t, l, S, st, last>>
EvOf(x) == [op |-> x[1], a |-> x[2], b |-> x[3], x |-> x[4], k |-> x[5]]
After(SS, e) == UNION {Call(Fresh(s), e) : s \in {q \in SS : Can(q, e)}}
Want(N) == {[res |-> n.res, pr |-> n.pr] : n \in N}
TInit == t \in DOMAIN Traces /\ l = 1 /\ S = {Init0} /\ st = Init0 /\ last = 0
TNext == /\ l <= Len(Traces[t].ev)
         /\ S # {}
         /\ t' = t /\ l' = l + 1 /\ UNCHANGED <<st, last>>
         /\ LET x == Traces[t].ev[l]
                e == EvOf(x)
                N == After(S, e)
            IN /\ S' = {Fresh(n) : n \in {m \in N : m.res = x[6] /\ m.pr = x[9]}}
               /\ (S' = {} => PrintT(<<"REJECT", t, l, IF N = {} THEN {"TOOL"} ELSE {"C16"} \cup (IF e.op = "iup" THEN {"C10"} ELSE {}),
                                       ToString(Want(N)), ToString([res |-> x[6], pr |-> x[9]])>>))
               /\ (l' > Len(Traces[t].ev) /\ S' # {} => PrintT(<<"ACCEPT", t, Cardinality(S')>>))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
