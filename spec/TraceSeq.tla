------------------------------ MODULE TraceSeq ------------------------------
(***************************************************************************)
(* Traces recorded from the real code, checked against ChanOps.            *)
(*                                                                         *)
(* A trace is [cap, events]; an event is                                   *)
(*   <<op, a, b, x, k, res, hd, wk, pr>>                                   *)
(* The state of a check is the set of specification states that explain    *)
(* what was seen so far; the trace is a behaviour of the specification     *)
(* iff it never becomes empty.  Where it does, Blame names the properties  *)
(* the divergence is evidence against.                                     *)
(***************************************************************************)
EXTENDS Blame, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, S
tvars == <<t, l, S>>

EvOf(x) == [op |-> x[1], a |-> x[2], b |-> x[3], x |-> x[4], k |-> x[5]]
ObsOf(x) == [res |-> x[6], hd |-> x[7], wk |-> Range(x[8]), pr |-> x[9]]
\* Which of the loops have been used before this event?
Used ==
  LET D == {EvOf(Traces[t].ev[i]) : i \in 1..l} IN
  (IF \E d \in D : d.op = "knew" /\ d.k \in {"run", "yld"} THEN {"C17"} ELSE {})
  \cup (IF \E d \in D : d.op = "knew" /\ d.k \in Runtimes THEN {"C24"} ELSE {})
  \cup (IF \E d \in D : (d.op = "knew" /\ d.k \in {"sel", "join"}) \/ (d.op = "kpoll" /\ {5, 6} \cap Digits(d.b) # {})
        THEN {"C18"} ELSE {})
\* Items of sinks are under nobody else's hand.
Items == {EvOf(d).b : d \in {x \in {Traces[t].ev[i] : i \in 1..l} : x[1] = "xstart"}}
Sinks(e, o) ==
  IF o.res \in {"hang", "boom"} \/ \A i \in 1..l : Traces[t].ev[i][1] # "xnew" THEN {}
  ELSE IF e.op \in {"probe", "end"} \/ (Range(<<o.hd>>) \cup {s.hd : s \in After(S, e)}) \cap Items # {}
       \/ \E s \in S : InSinks(s) # {} /\ e.op = "rpoll" THEN {"C21"} ELSE {}
\* What a loop left behind, or did not let go of.
Left(e, o) ==
  IF e.op \in {"probe", "spoll", "jpoll", "end"} /\ o.res \notin {"hang", "boom"} THEN Used ELSE {}
\* What messages owned was not let go of, or too early.
Owners(e, o) ==
  IF e.op \in {"probe", "jpoll", "aup", "end"} /\ \E i \in 1..l : Traces[t].ev[i][1] = "load" \/ Traces[t].ev[i][5] \in {"s", "ds"}
  THEN {"C20"} ELSE {}
Reject(e, o) ==
  LET N == After(S, e) IN
  PrintT(<<"REJECT", t, l, Blame(S, e, o) \cup Left(e, o) \cup Sinks(e, o) \cup Owners(e, o), ToString(Want(N)), ToString(o)>>)

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ S = {[Init0(Traces[t].cap) EXCEPT !.md = Traces[t].md]}
Next == /\ l <= Len(Traces[t].ev)
        /\ S # {}
        /\ t' = t
        /\ l' = l + 1
        /\ LET e == EvOf(Traces[t].ev[l])
               o == ObsOf(Traces[t].ev[l])
           IN /\ S' = {Fresh(n) : n \in {m \in After(S, e) : Fits(m, o)}}
              /\ (S' = {} => Reject(e, o))
              /\ (l' > Len(Traces[t].ev) /\ S' # {} => PrintT(<<"ACCEPT", t, Cardinality(S')>>))
Spec == Init /\ [][Next]_tvars
=============================================================================
