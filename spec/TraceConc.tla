------------------------------ MODULE TraceConc ------------------------------
(***************************************************************************)
(* Traces recorded from the real code while several threads called into    *)
(* it, checked against MicroOps: is there an order of the calls' atomic    *)
(* steps, each inside its call, that explains everything seen?             *)
(*                                                                         *)
(* An event is <<tag, thread, op, a, b, x, k, res, hd, wk, pr>>:           *)
(*   "s"  a call made while no other was running                           *)
(*   "c"  a thread began a call      "r"  it returned and showed this      *)
(*   "x"  the call never returns: every thread waits for a lock            *)
(* The state of a check is the set of configurations that explain what was *)
(* seen so far.                                                            *)
(***************************************************************************)
EXTENDS MicroOps, Blame, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, S, conc
tvars == <<t, l, S, conc>>

EvOf(x) == [op |-> x[3], a |-> x[4], b |-> x[5], x |-> x[6], k |-> x[7]]
ObsOf(x) == [res |-> x[8], hd |-> x[9], wk |-> Range(x[10]), pr |-> x[11]]

\* What a probe shows that runs at the same time as something else is not judged.
Fit(n, o) == Fits(n, IF n.pr = <<>> THEN [o EXCEPT !.pr = <<>>] ELSE o)
Sts(CS) == {c.st : c \in CS}
Seen(c, u) == [c.st EXCEPT !.res = c.th[u].res, !.hd = c.th[u].hd, !.wk = c.th[u].owe]
Back(CS, u) == {c \in CS : Finished(c, u) /\ (Cardinality(DOMAIN c.th) = 1 => c.pool = 0)}

Reject(b, N, o) == PrintT(<<"REJECT", t, l, b, ToString(Want(N)), ToString(o)>>)

\* A call on its own.
Single(e, o) ==
  LET N == After(Sts(S), e) IN
  /\ S' = {Idle(Fresh(n)) : n \in {m \in N : Fits(m, o)}}
  /\ conc' = conc
  /\ (S' = {} => Reject(BlameOf(Sts(S), N, e, o) \cup (IF conc THEN {"C19"} ELSE {}), N, o))
\* A call begins: nothing has happened yet, but others may have gone on.
Begins(u, e) ==
  LET C == {c \in Closure(S) : Can(c.st, e)} IN
  /\ S' = {Begin(c, u, e) : c \in C}
  /\ conc' = TRUE
  /\ (S' = {} => Reject({"C19"} \cup (IF e.op = "dpoll" THEN {"C01", "C04"} ELSE {}), {}, [res |-> "began"]))
Returns(u, e, o) ==
  LET B == Back(Closure(S), u)
      N == {Seen(c, u) : c \in B}
  IN /\ S' = {Leave(c, u) : c \in {d \in B : Fit(Seen(d, u), o)}}
     /\ conc' = TRUE
     /\ (S' = {} => Reject({"C19"} \cup BlameOf(Sts(Closure(S)), N, e, o), N, o))
Stuck(u, e, o) ==
  /\ S' = {} /\ conc' = TRUE
  /\ Reject({"C19"} \cup BlameDead(Sts(S), e, [o EXCEPT !.res = "hang"]), {}, o)

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ S = {Idle(Init0(Traces[t].cap))}
        /\ conc = FALSE
Next == /\ l <= Len(Traces[t].ev)
        /\ S # {}
        /\ t' = t
        /\ l' = l + 1
        /\ LET x == Traces[t].ev[l]
               e == EvOf(x)
               o == ObsOf(x)
           IN /\ CASE x[1] = "s" -> Single(e, o)
                   [] x[1] = "c" -> Begins(x[2], e)
                   [] x[1] = "r" -> Returns(x[2], e, o)
                   [] OTHER      -> Stuck(x[2], e, o)
              /\ (l' > Len(Traces[t].ev) /\ S' # {} => PrintT(<<"ACCEPT", t, Cardinality(S')>>))
Spec == Init /\ [][Next]_tvars
=============================================================================
