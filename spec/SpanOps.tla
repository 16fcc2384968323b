------------------------------- MODULE SpanOps -------------------------------
(***************************************************************************)
(* Tracing spans (instrumentation/tracing.rs, feature "instrumentation").  *)
(* st.md says what is listening: 0 nobody (the rest of the specification   *)
(* as it is), 1 a subscriber that wants everything, 2 one that wants only  *)
(* level info, to which xtra's own spans are invisible.                    *)
(*                                                                         *)
(* The calls spoll, xpoll, dpoll, kpoll and dspan happen inside the user's *)
(* span number x (0: none).  A message's span is the one in which its send *)
(* was polled first: its request span is a child of that and its handler   *)
(* spans are children of the request span, so whenever a handler is polled *)
(* the message's span is what tells who is running, whatever span the      *)
(* poller was in.  A third span covers the time the message waits for an   *)
(* actor.                                                                  *)
(*                                                                         *)
(* What a call shows in pr: for each poll of a handler the user's span     *)
(* found above it (in a task's log: 1000 + that, after the handler's own   *)
(* entry); the harness shows something negative if the spans in between    *)
(* are not exactly this message's.  "waits": the messages whose waiting    *)
(* spans are open.  "dspan" (DispatchFuture::span): the user's span above  *)
(* the span it returns, -1 if that is none at all.                         *)
(***************************************************************************)
EXTENDS LoopOps

Item(st, e) ==
  CASE e.op = "spoll" -> e.a
    [] e.op = "xpoll" -> st.sk[e.a].cur
    [] OTHER -> 0
\* A send is polled first: this is when its spans begin.
BeginSpan(st, e) ==
  LET s == Item(st, e)
  IN IF s # 0 /\ st.snd[s].fs = "new" THEN [st EXCEPT !.snd[s].sp = e.x] ELSE st

\* A message waits for an actor from its send's first poll until it is
\* dispatched to the last actor that gets it, or dropped.
Waits(st, s) ==
  /\ st.snd[s].sp >= 0
  /\ \/ \E r \in DOMAIN st.rcv : (st.rcv[r].st = "got" /\ st.rcv[r].c = s) \/ (st.rcv[r].st = "wait" /\ st.rcv[r].slot = s)
     \/ IF st.snd[s].k = "u" THEN s \in Range(st.uq) \cup Range(st.wu)
        ELSE s \in Range(st.wb) \/ \E m \in DOMAIN st.mbs : s \in Range(st.mbs[m].q)
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Ordered(S \ {x})

RECURSIVE Annotate(_, _)
Annotate(st, q) ==
  IF q = <<>> THEN <<>>
  ELSE LET v == Head(q) IN
       (IF v < 100 THEN <<v>> ELSE <<v, 1000 + st.snd[IF v >= 200 THEN v - 200 ELSE v - 100].sp>>) \o Annotate(st, Tail(q))

(***************************************************************************)
(* DispatchFuture::span makes the handler's future if that was not done    *)
(* yet: rcv.st is "span" until the handler is really entered.  A Shutdown  *)
(* message lets go of the mailbox then already ("over").                   *)
(***************************************************************************)
AsRun(st, r) == [st EXCEPT !.rcv[r].st = "run"]
Early(st, r) == r \in DOMAIN st.rcv /\ st.rcv[r].st \in {"span", "over"}
SpanPoll(st, r, act) ==
  LET v == st.rcv[r] IN
  CASE v.st = "over" -> {Res(Forget(st, r), "brk")}
    [] v.st = "span" -> DispPoll([AsRun(st, r) EXCEPT !.hd = v.c], r, act)
    [] OTHER -> DispPoll(st, r, act)
SpanDrop(st, r) ==
  LET v == st.rcv[r] IN
  CASE v.st = "over" -> {Forget(st, r)}
    [] v.st = "span" -> RecvDrop(AsRun(st, r), r)
DispSpan(st, r) ==
  LET v == st.rcv[r]
      cl == st.snd[v.c].k = "b" /\ st.snd[v.c].pay = "S"
  IN CASE v.st \in {"run", "span"} -> {Res([st EXCEPT !.pr = <<st.snd[v.c].sp>>], "ok")}
       [] v.st = "over" -> {Res([st EXCEPT !.pr = <<-1>>], "ok")}
       [] v.c = SD -> {Res([t EXCEPT !.rcv[r].st = "over", !.rcv[r].m = 0, !.pr = <<-1>>], "ok") : t \in ReleaseRx(st, v.m)}
       [] OTHER -> {Res([Sweep([st EXCEPT !.rcv[r].st = "span", !.rcv[r].own = IF cl THEN "S" ELSE @,
                                          !.scnt = IF cl THEN @ + 1 ELSE @]) EXCEPT !.pr = <<st.snd[v.c].sp>>], "ok")}

PCall1(st0, e) ==
  IF st0.md = 0 THEN LCall(st0, e)
  ELSE LET st == BeginSpan(Fresh(st0), e) IN
       CASE e.op = "dpoll" -> {IF st.rcv[e.a].c = SD THEN t
                               ELSE [t EXCEPT !.pr = <<st.snd[st.rcv[e.a].c].sp>>] : t \in SpanPoll(st, e.a, e.k)}
         [] e.op = "rdrop" /\ Early(st, e.a) -> SpanDrop(st, e.a)
         [] e.op = "kpoll" -> {[t EXCEPT !.pr = Annotate(t, @)] : t \in LCall(st, e)}
         [] e.op = "dspan" -> DispSpan(st, e.a)
         [] e.op = "waits" -> {Res([st EXCEPT !.pr = Ordered({s \in DOMAIN st.snd : Waits(st, s)})], "ok")}
         [] OTHER -> LCall(st, e)
\* Messages that a call destroyed give up what they own before it returns.
PCall(st, e) ==
  IF st.ld = << >> THEN PCall1(st, e) ELSE UNION {Release(t) : t \in PCall1(st, e)}
PCan(st, e) ==
  CASE e.op = "dspan" -> st.md # 0 /\ e.a \in DOMAIN st.rcv /\ st.rcv[e.a].st \in {"got", "run", "span", "over"}
    [] e.op = "waits" -> st.md = 1
    [] e.op = "dpoll" -> LCan(st, e) \/ Early(st, e.a)
    [] OTHER -> LCan(st, e)
=============================================================================
