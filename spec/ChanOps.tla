------------------------------- MODULE ChanOps -------------------------------
(***************************************************************************)
(* State and critical sections of xtra's channel.                          *)
(*                                                                         *)
(* One operator per critical section (or atomic access) of the code:       *)
(* chan.rs, recv_future.rs, send_future.rs, waiting_{sender,receiver}.rs,  *)
(* ptr.rs.  The operators are pure: they take a channel state (a record)   *)
(* and return the set of states the section may lead to.  XtraSeq composes *)
(* them into whole API calls (one poll, one drop, ... is one step); Conc   *)
(* interleaves them between threads; TraceSeq/TraceConc bind both to       *)
(* traces recorded from the real code.                                     *)
(*                                                                         *)
(* Ids are small integers.  A single-recipient message and the future      *)
(* sending it share one id s; a receive, the message in hand and the       *)
(* dispatch it turns into share one id r; a mailbox m is identified with   *)
(* its own broadcast queue.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoSlot == -1      \* nothing was put into the waiting receiver's slot yet
BcSlot == -2      \* "there is a new broadcast for you"
SdSlot == -3      \* "the last strong handle is gone"
SD     == 0       \* the id under which a Shutdown message sits in a queue
SDPrio == 99      \* ranks above every message priority

\* Wake-up tokens, one name space for all futures.
WS(s) == (IF s < 100 THEN 100 ELSE 10000) + s
WL(k) == 400 + k      \* task k; its receives are numbered 1000*k + depth
WR(r) == IF r >= 1000 THEN WL(r \div 1000) ELSE 200 + r
WJ(j) == 300 + j

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Range(f) == {f[i] : i \in DOMAIN f}
RemoveIdx(q, i) == SubSeq(q, 1, i-1) \o SubSeq(q, i+1, Len(q))
Drop1(q, x) == SelectSeq(q, LAMBDA y : y # x)
Minus(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == (x :> v) @@ f

(***************************************************************************)
(* The state.                                                              *)
(*   cap   bound per kind, -1 = unbounded                                  *)
(*   adr   address/channel handles: id -> "S" (strong) / "W" (weak)        *)
(*   scnt  strong references;  rcnt  references by receivers               *)
(*   mbs   live mailboxes: id -> [h: holders, q: broadcast queue]          *)
(*   mh    mailbox ids whose Mailbox handle is still held by the user      *)
(*   rcv   receives: id -> [m, st: new/wait/got/run, slot, c: content,    *)
(*           own: S if a running broadcast handler owns a strong address]  *)
(*   wr    idle receivers registered with the channel                      *)
(*   uq    accepted single-recipient messages, in order of acceptance      *)
(*   rq    those of them that a cancelled receive put back                 *)
(*   wu,wb sends waiting for room, in order of their first poll            *)
(*   snd   sends: id -> [k: u/b, p: priority, fs: future's state,          *)
(*           own: S/W/- reference held while not polled, det: detached,    *)
(*           rep: open/val/gone result slot, pay: S if the message owns a  *)
(*           strong address, sp: its tracing span]                         *)
(*   rw    sends whose task is registered with their result slot           *)
(*   jn    join handles: id -> [st: listen/note, w: polled, in: scoped?]   *)
(*   tk    tasks running an event loop (LoopOps); sk: sinks (SinkOps);     *)
(*   md    who listens to tracing (SpanOps)                                *)
(*   ld    what messages own: send -> addresses <<"a", strong?>>, mailboxes *)
(*         <<"m", m>> and sends <<"s", t>>, in the order of their dropping *)
(* and, of the last call only: wk (tasks that must be woken), res, hd (id  *)
(* of the message whose handler was entered), pr (what a probe reports, or *)
(* what a task did), sc (what is left of a task's script).                 *)
(***************************************************************************)
Init0(c) ==
  [cap |-> c, adr |-> (1 :> "S"), scnt |-> 1, rcnt |-> 1,
   mbs |-> (1 :> [h |-> 1, q |-> <<>>]), mh |-> {1},
   rcv |-> << >>, wr |-> {}, uq |-> <<>>, rq |-> {}, wu |-> <<>>, wb |-> <<>>,
   snd |-> << >>, rw |-> {}, jn |-> << >>, tk |-> << >>, sk |-> << >>, md |-> 0, ld |-> << >>,
   wk |-> {}, res |-> "", hd |-> 0, pr |-> <<>>, sc |-> 0]

Fresh(st) == [st EXCEPT !.wk = {}, !.res = "", !.hd = 0, !.pr = <<>>, !.sc = 0]
Res(st, r) == [st EXCEPT !.res = r]
Wake(st, t) == [st EXCEPT !.wk = @ \cup {t}]

Conn(st)  == st.rcnt > 0 /\ st.scnt > 0
BLen(st)  == IF DOMAIN st.mbs = {} THEN 0 ELSE MaxOf({Len(st.mbs[m].q) : m \in DOMAIN st.mbs})
UFull(st) == st.cap >= 0 /\ Len(st.uq) >= st.cap
BFull(st) == st.cap >= 0 /\ BLen(st) >= st.cap
Prio(st, x) == IF x = SD THEN SDPrio ELSE st.snd[x].p
TopPrio(st, q) == IF q = <<>> THEN -1 ELSE MaxOf({Prio(st, q[i]) : i \in DOMAIN q})

\* Which queued messages may be taken next: any of the highest priority, but
\* default priority goes in order (except what a cancelled receive put back).
Cands(st, q, loose) ==
  LET tp  == TopPrio(st, q)
      top == {i \in DOMAIN q : Prio(st, q[i]) = tp}
  IN IF tp # 0 THEN top
     ELSE {i \in top : q[i] \in loose \/ ~ \E j \in top : j < i /\ q[j] \notin loose}

\* Which waiting send is admitted: any of the highest priority, default in order.
WCands(st, w) ==
  LET tp  == TopPrio(st, w)
      top == {i \in DOMAIN w : Prio(st, w[i]) = tp}
  IN IF tp # 0 THEN top ELSE {i \in top : \A j \in top : i <= j}

(***************************************************************************)
(* Strong references.                                                      *)
(***************************************************************************)
\* Last strong reference gone: idle receivers are told (chan.rs
\* shutdown_waiting_receivers).
ShutdownReceivers(st) ==
  [st EXCEPT !.rcv = [r \in DOMAIN @ |-> IF r \in st.wr THEN [@[r] EXCEPT !.slot = SdSlot] ELSE @[r]],
             !.wk = @ \cup {WR(r) : r \in st.wr},
             !.wr = {}]
DecSender(st) ==
  LET s1 == [st EXCEPT !.scnt = @ - 1]
  IN IF s1.scnt = 0 THEN ShutdownReceivers(s1) ELSE s1

(***************************************************************************)
(* Results, and what a message owns.                                       *)
(***************************************************************************)
SetRep(st, x, v) ==
  IF st.snd[x].k # "u" \/ st.snd[x].rep # "open" THEN st
  ELSE LET s1 == [st EXCEPT !.snd[x].rep = v]
       IN IF x \in st.rw THEN [Wake(s1, WS(x)) EXCEPT !.rw = @ \ {x}] ELSE s1
DropPay(st, x) ==
  IF st.snd[x].pay = "S" THEN DecSender([st EXCEPT !.snd[x].pay = "-"]) ELSE st
\* A single-recipient message is destroyed without having been handled.
DropMsg(st, x) == DropPay(SetRep(st, x, "gone"), x)
\* A broadcast owns its payload until the last queue (or hand) let go of it.
BcHeld(st, x) ==
  \/ \E m \in DOMAIN st.mbs : \E i \in DOMAIN st.mbs[m].q : st.mbs[m].q[i] = x
  \/ \E r \in DOMAIN st.rcv : st.rcv[r].c = x /\ st.rcv[r].st = "got"
  \/ st.snd[x].fs = "new" \/ \E i \in DOMAIN st.wb : st.wb[i] = x
RECURSIVE SweepBc(_, _)
SweepBc(st, X) ==
  IF X = {} THEN st
  ELSE LET x == CHOOSE y \in X : TRUE
           s1 == IF st.snd[x].k = "b" /\ st.snd[x].pay = "S" /\ ~BcHeld(st, x)
                 THEN DropPay(st, x) ELSE st
       IN SweepBc(s1, X \ {x})
Sweep(st) ==
  LET X == {x \in DOMAIN st.snd : st.snd[x].k = "b" /\ st.snd[x].pay = "S"}
  IN IF X = {} THEN st ELSE SweepBc(st, X)

(***************************************************************************)
(* Giving messages out.                                                    *)
(***************************************************************************)
\* Hand x to an idle receiver (try_fulfill_receiver): which one is open.
Fulfil(st, x) ==
  {[st EXCEPT !.rcv[r].slot = x, !.wr = @ \ {r}, !.wk = @ \cup {WR(r)}] : r \in st.wr}

\* Broadcast x (a send's id or SD): every live mailbox gets it, every idle
\* receiver is told (send_broadcast).
Bcast(st, x) ==
  [st EXCEPT !.mbs = [m \in DOMAIN @ |-> [@[m] EXCEPT !.q = Append(@, x)]],
             !.rcv = [r \in DOMAIN @ |-> IF r \in st.wr THEN [@[r] EXCEPT !.slot = BcSlot] ELSE @[r]],
             !.wk = @ \cup {WR(r) : r \in st.wr},
             !.wr = {}]

\* The sender future of a waiting send learns that its message was taken.
Admit(st, s) == Wake([st EXCEPT !.snd[s].fs = "adm"], WS(s))

\* After a single-recipient message was taken: one waiting send moves up.
AdmitU(st) ==
  IF UFull(st) \/ st.wu = <<>> THEN {st}
  ELSE {[Admit(st, st.wu[i]) EXCEPT !.uq = Append(@, st.wu[i]), !.wu = RemoveIdx(@, i)]
          : i \in WCands(st, st.wu)}
\* After a broadcast was taken, or a mailbox went away.
RECURSIVE AdmitB(_)
AdmitB(st) ==
  IF BFull(st) \/ st.wb = <<>> THEN {st}
  ELSE UNION {AdmitB(Bcast([Admit(st, st.wb[i]) EXCEPT !.wb = RemoveIdx(@, i)], st.wb[i]))
          : i \in WCands(st, st.wb)}

(***************************************************************************)
(* Receivers' references.                                                  *)
(***************************************************************************)
RECURSIVE DropMsgs(_, _)
DropMsgs(st, q) == IF q = <<>> THEN st ELSE DropMsgs(DropMsg(st, Head(q)), Tail(q))
RECURSIVE CloseSends(_, _)
CloseSends(st, q) ==
  IF q = <<>> THEN st
  ELSE CloseSends(DropMsg(Wake([st EXCEPT !.snd[Head(q)].fs = "cls"], WS(Head(q))), Head(q)), Tail(q))

\* Last receiver gone (shutdown_waiting_senders): everything queued is
\* dropped, waiting sends are closed, join handles are notified.
ShutdownSenders(st) ==
  LET s1 == [st EXCEPT !.jn = [j \in DOMAIN @ |-> [@[j] EXCEPT !.st = "note"]],
                       !.wk = @ \cup {WJ(j) : j \in {i \in DOMAIN st.jn : st.jn[i].st = "listen" /\ st.jn[i].w}},
                       !.uq = <<>>, !.rq = {}, !.wu = <<>>, !.wb = <<>>]
  IN Sweep(CloseSends(CloseSends(DropMsgs(s1, st.uq), st.wu), st.wb))

\* One holder of mailbox m lets go.  Messages that die of it, or had died
\* before in the same call, give up what they own at any point of this.
RECURSIVE Release(_)
LetGoRx(st, m) ==
  LET last == st.mbs[m].h = 1
      s1 == [st EXCEPT !.mbs = IF last THEN Minus(@, m) ELSE [@ EXCEPT ![m].h = @ - 1],
                       !.rcnt = @ - 1]
  IN IF s1.rcnt = 0 THEN {ShutdownSenders(s1)}
     ELSE IF last THEN AdmitB(Sweep(s1)) \cup {Sweep(t) : t \in AdmitB(s1)}
                       \cup IF st.ld = << >> THEN {} ELSE UNION {AdmitB(t) : t \in Release(Sweep(s1))}
     ELSE {s1}
ReleaseRx(st, m) ==
  IF st.ld = << >> THEN LetGoRx(st, m)
  ELSE UNION {UNION {Release(u) : u \in LetGoRx(t, m)} : t \in {st} \cup Release(st)}
HoldRx(st, m) == [st EXCEPT !.mbs[m].h = @ + 1, !.rcnt = @ + 1]

(***************************************************************************)
(* Sending.                                                                *)
(***************************************************************************)
DropOwn(st, s) ==
  LET o == st.snd[s].own
      s1 == [st EXCEPT !.snd[s].own = "-"]
  IN IF o = "S" THEN DecSender(s1) ELSE s1

\* try_send_to_one
LockedSendU(st, s) ==
  IF ~Conn(st) THEN {DropMsg([Res(st, "disc") EXCEPT !.snd[s].fs = "end"], s)}
  ELSE IF st.wr # {} THEN Fulfil([st EXCEPT !.snd[s].fs = "acc"], s)
  ELSE IF UFull(st) THEN {[st EXCEPT !.snd[s].fs = "wait", !.wu = Append(@, s), !.res = "pend"]}
  ELSE {[st EXCEPT !.snd[s].fs = "acc", !.uq = Append(@, s)]}
\* try_send_to_all
LockedSendB(st, s) ==
  IF ~Conn(st) THEN {Sweep([Res(st, "disc") EXCEPT !.snd[s].fs = "end"])}
  ELSE IF BFull(st) THEN {[st EXCEPT !.snd[s].fs = "wait", !.wb = Append(@, s), !.res = "pend"]}
  ELSE {Bcast([st EXCEPT !.snd[s].fs = "end", !.res = "ok"], s)}
LockedSend(st, s) == IF st.snd[s].k = "u" THEN LockedSendU(st, s) ELSE LockedSendB(st, s)

\* Poll the result slot of an accepted single-recipient send.
PollRep(st, s) ==
  CASE st.snd[s].rep = "val"  -> [Res(st, "val") EXCEPT !.snd[s].fs = "end"]
    [] st.snd[s].rep = "gone" -> [Res(st, "intr") EXCEPT !.snd[s].fs = "end"]
    [] OTHER                  -> [Res(st, "pend") EXCEPT !.rw = @ \cup {s}]
\* What the future returns once it knows that the message was accepted.
AfterAccept(st, s) ==
  IF st.snd[s].k = "b" THEN [Res(st, "ok") EXCEPT !.snd[s].fs = "end"]
  ELSE IF st.snd[s].det THEN [Res(st, "ok") EXCEPT !.snd[s].fs = "rx"]
  ELSE PollRep([st EXCEPT !.snd[s].fs = "acc"], s)

SendPoll(st, s) ==
  CASE st.snd[s].fs = "new" ->
         LET sent == {DropOwn(t, s) : t \in LockedSend(st, s)}
         IN {IF t.snd[s].fs = "acc" THEN AfterAccept(t, s) ELSE t : t \in sent}
    [] st.snd[s].fs = "wait" -> {Res(st, "pend")}
    [] st.snd[s].fs = "adm"  -> {AfterAccept(st, s)}
    [] st.snd[s].fs = "cls"  -> {[Res(st, "disc") EXCEPT !.snd[s].fs = "end"]}
    [] OTHER                 -> {PollRep(st, s)}   \* acc, rx

SendDrop(st, s) ==
  LET fs == st.snd[s].fs
      s1 == [st EXCEPT !.snd[s].fs = "end", !.rw = @ \ {s},
                       !.wu = Drop1(@, s), !.wb = Drop1(@, s), !.res = "ok"]
  IN IF fs = "new" THEN {DropOwn(Sweep(DropMsg(s1, s)), s)}
     ELSE IF fs = "wait" THEN {Sweep(DropMsg(s1, s))}
     ELSE {s1}

(***************************************************************************)
(* What messages own is dropped with them, outside of any lock.            *)
(***************************************************************************)
Exists(st, x) ==
  \/ st.snd[x].fs = "new"
  \/ \E r \in DOMAIN st.rcv : st.rcv[r].c = x \/ st.rcv[r].slot = x
  \/ IF st.snd[x].k = "u" THEN x \in Range(st.uq) \cup Range(st.wu)
     ELSE x \in Range(st.wb) \/ \E m \in DOMAIN st.mbs : x \in Range(st.mbs[m].q)
Owned(st) == UNION {Range(st.ld[x]) : x \in DOMAIN st.ld}
Stowed(st) == {i[2] : i \in {j \in Owned(st) : j[1] = "s"}}
DropItem(st, i) ==
  CASE i[1] = "a" -> {IF i[2] = 1 THEN DecSender(st) ELSE st}
    [] i[1] = "m" -> ReleaseRx(st, i[2])
    [] i[1] = "s" -> {[t EXCEPT !.res = st.res, !.wk = @ \ {WS(i[2])}] : t \in SendDrop(st, i[2])}
RECURSIVE DropItems(_, _)
DropItems(st, q) == IF q = <<>> THEN {st} ELSE UNION {DropItems(t, Tail(q)) : t \in DropItem(st, Head(q))}
Release(st) ==
  LET D == {x \in DOMAIN st.ld : ~Exists(st, x)}
  IN IF D = {} THEN {st}
     ELSE UNION {UNION {Release(t) : t \in DropItems([st EXCEPT !.ld = Minus(@, x)], st.ld[x])} : x \in D}
\* The user puts something into a message, if it still exists, or takes it all
\* out and drops it.
Load(st, x, b, k) ==
  IF ~Exists(st, x) THEN Res(st, "gone")
  ELSE LET i == CASE k = "a" -> <<k, IF st.adr[b] = "S" THEN 1 ELSE 0>> [] OTHER -> <<k, b>>
       IN [st EXCEPT !.ld = Put(@, x, (IF x \in DOMAIN st.ld THEN st.ld[x] ELSE <<>>) \o <<i>>),
                     !.adr = IF k = "a" THEN Minus(@, b) ELSE @,
                     !.mh = IF k = "m" THEN @ \ {b} ELSE @, !.res = "ok"]
Unload(st, x) ==
  IF x \notin DOMAIN st.ld THEN {[Res(st, "ok") EXCEPT !.pr = <<0>>]}
  ELSE DropItems([st EXCEPT !.ld = Minus(@, x), !.res = "ok", !.pr = <<Len(st.ld[x])>>], st.ld[x])

(***************************************************************************)
(* Receiving.                                                              *)
(***************************************************************************)
Got(st, r, x) == [st EXCEPT !.rcv[r].st = "got", !.rcv[r].slot = NoSlot, !.rcv[r].c = x, !.res = "ready"]

TakeU(st, r) ==
  UNION {AdmitU([Got(st, r, st.uq[i]) EXCEPT !.uq = RemoveIdx(@, i), !.rq = @ \ {st.uq[i]}])
           : i \in Cands(st, st.uq, st.rq)}
TakeB(st, r) ==
  LET m == st.rcv[r].m  q == st.mbs[m].q
  IN UNION {AdmitB([Got(st, r, q[i]) EXCEPT !.mbs[m].q = RemoveIdx(@, i)])
           : i \in {j \in DOMAIN q : Prio(st, q[j]) = TopPrio(st, q)}}
\* Capacity zero: the message goes straight from a waiting send to the receiver.
TakeW(st, r) ==
  {[Admit(Got(st, r, st.wu[i]), st.wu[i]) EXCEPT !.wu = RemoveIdx(@, i)] : i \in WCands(st, st.wu)}

\* try_recv
LockedTryRecv(st, r) ==
  LET q  == st.mbs[st.rcv[r].m].q
      up == TopPrio(st, st.uq)
      bp == TopPrio(st, q)
  IN IF up = bp /\ st.uq # <<>> THEN TakeU(st, r) \cup TakeB(st, r)  \* a tie: open
     ELSE IF up > bp THEN TakeU(st, r)
     ELSE IF q # <<>> THEN TakeB(st, r)
     ELSE IF st.wu # <<>> THEN TakeW(st, r)
     ELSE IF st.scnt = 0 THEN {Got(st, r, SD)}
     ELSE {[st EXCEPT !.rcv[r].st = "wait", !.rcv[r].slot = NoSlot, !.wr = @ \cup {r}, !.res = "pend"]}

RecvPoll(st, r) ==
  LET v == st.rcv[r] IN
  CASE v.st = "new" -> LockedTryRecv(st, r)
    [] v.slot = NoSlot -> {Res(st, "pend")}
    [] v.slot = SdSlot -> {Got(st, r, SD)}
    [] v.slot = BcSlot ->
         \* The code takes from the broadcast queue first; looking at both
         \* queues again would be as good (C03's one exception).
         IF st.mbs[v.m].q = <<>> THEN LockedTryRecv([st EXCEPT !.rcv[r].st = "new"], r)
         ELSE TakeB(st, r) \cup LockedTryRecv([st EXCEPT !.rcv[r].st = "new"], r)
    [] OTHER -> {Got(st, r, v.slot)}

\* requeue_message
Requeue(st, x) ==
  IF st.wr # {} THEN Fulfil(st, x)
  ELSE {[st EXCEPT !.uq = Append(@, x), !.rq = @ \cup {x}]}

\* A running broadcast handler works on its own copy of the message.
DropRun(st, v) == IF v.own = "S" THEN DecSender(st) ELSE st
Forget(st, r) == [st EXCEPT !.rcv = Minus(@, r), !.wr = @ \ {r}, !.res = "ok"]

\* Drop of a receive future, of a message in hand, or of a running dispatch.
RecvDrop(st, r) ==
  LET v == st.rcv[r]
      s1 == DropRun(Forget(st, r), v)
  IN CASE v.st = "wait" /\ v.slot > 0 -> UNION {ReleaseRx(t, v.m) : t \in Requeue(s1, v.slot)}
       [] v.st \in {"got", "run"} /\ v.c # SD ->
            LET s2 == IF s1.snd[v.c].k = "u" THEN DropMsg(s1, v.c) ELSE Sweep(s1)
            IN ReleaseRx(s2, v.m)
       [] OTHER -> ReleaseRx(s1, v.m)

(***************************************************************************)
(* Dispatching.  act is what the handler does when polled:                 *)
(*   pend, ret, stop (stop_self, ret), stopall (stop_all, ret), panic      *)
(***************************************************************************)
StopAll(st) == Bcast(st, SD)

DispPoll(st, r, act) ==
  LET v0 == st.rcv[r]
      cl == v0.st = "got" /\ v0.c # SD /\ st.snd[v0.c].k = "b" /\ st.snd[v0.c].pay = "S"
      v  == IF cl THEN [v0 EXCEPT !.own = "S"] ELSE v0
      s0 == IF v.st = "got" /\ v.c # SD
            THEN Sweep([st EXCEPT !.hd = v.c, !.rcv[r].st = "run", !.rcv[r].own = v.own,
                                  !.scnt = IF cl THEN @ + 1 ELSE @])
            ELSE st
      fin(t, rep, res) ==
        \* the handler is over: the message's belongings are dropped, the
        \* context's mailbox is released, then the result is delivered
        LET t0 == DropRun(Forget(t, r), v)
            t1 == IF t0.snd[v.c].k = "u" THEN DropPay(t0, v.c) ELSE t0
            rel == ReleaseRx(t1, v.m)
        IN {Res(SetRep(u, v.c, rep), res) : u \in rel}
  IN IF v.c = SD THEN {Res(t, "brk") : t \in ReleaseRx(Forget(s0, r), v.m)}
     ELSE CASE act = "pend"    -> {Res(s0, "pend")}
            [] act = "ret"     -> fin(s0, "val", "cont")
            [] act = "stop"    -> fin(s0, "val", "brk")
            [] act = "stopall" -> fin(StopAll(s0), "val", "cont")
            [] act = "panic"   -> fin(s0, "gone", "panic")

(***************************************************************************)
(* Handles.                                                                *)
(***************************************************************************)
AddrNew(st, b, k) ==
  [st EXCEPT !.adr = Put(@, b, k), !.scnt = IF k = "S" THEN @ + 1 ELSE @, !.res = "ok"]
AddrDrop(st, a) ==
  LET s1 == [st EXCEPT !.adr = Minus(@, a), !.res = "ok"]
  IN IF st.adr[a] = "S" THEN DecSender(s1) ELSE s1
AddrUp(st, b) == IF st.scnt > 0 THEN Res(AddrNew(st, b, "S"), "some") ELSE Res(st, "none")

MbClone(st, n) ==
  [st EXCEPT !.mbs = Put(@, n, [h |-> 1, q |-> <<>>]), !.mh = @ \cup {n}, !.rcnt = @ + 1, !.res = "ok"]
MbDrop(st, m) == ReleaseRx([st EXCEPT !.mh = @ \ {m}, !.res = "ok"], m)

\* A send from a handle of strength o.
SendFrom(st, s, o, k, p, det, pay) ==
  LET n == (IF o = "S" THEN 1 ELSE 0) + (IF pay = "S" THEN 1 ELSE 0)
  IN [st EXCEPT !.snd = Put(@, s, [k |-> k, p |-> p, fs |-> "new", own |-> o, det |-> det,
                                   rep |-> "open", pay |-> pay, sp |-> -1]),
                !.scnt = @ + n, !.res = "ok"]
SendNew(st, s, a, k, p, det, pay) == SendFrom(st, s, st.adr[a], k, p, det, pay)
RecvNew(st, r, m) ==
  [HoldRx(st, m) EXCEPT !.rcv = Put(@, r, [m |-> m, st |-> "new", slot |-> NoSlot, c |-> NoSlot, own |-> "-"]),
                        !.res = "ok"]

JoinNew(st, j, inner) ==
  [st EXCEPT !.jn = Put(@, j, [st |-> IF Conn(st) THEN "listen" ELSE "note", w |-> FALSE, in |-> inner]),
             !.res = "ok"]
\* A join handle: act is ignored.  A scoped task: act is what its own future
\* does if it is polled ("pend"/"ret"); hd says whether it was polled.
JoinPoll(st, j, act) ==
  LET v == st.jn[j] IN
  IF v.st = "note"
  THEN [st EXCEPT !.jn = Minus(@, j), !.res = IF v.in THEN "none" ELSE "ready"]
  ELSE IF ~v.in THEN [st EXCEPT !.jn[j].w = TRUE, !.res = "pend"]
  ELSE IF act = "ret" THEN [st EXCEPT !.jn = Minus(@, j), !.res = "some", !.hd = 1]
  ELSE [st EXCEPT !.jn[j].w = TRUE, !.res = "pend", !.hd = 1]
JoinDrop(st, j) == [st EXCEPT !.jn = Minus(@, j), !.res = "ok"]

\* What a handle reports: len, is_connected, both counts, capacity; and how
\* many single-recipient messages still exist (counted by the harness).
Probe(st) ==
  [st EXCEPT !.pr = <<Len(st.uq) + BLen(st), IF Conn(st) THEN 1 ELSE 0, st.scnt, st.rcnt, st.cap,
                      Cardinality({s \in DOMAIN st.snd : st.snd[s].k = "u" /\ st.snd[s].rep = "open"})>>,
             !.res = "ok"]
\* After everything was dropped no message may be left over.
End(st) == [st EXCEPT !.pr = <<0, 0>>, !.res = "ok"]

(***************************************************************************)
(* One API call e = [op, a, b, x, k] on state st: the states it may lead   *)
(* to, each carrying what the call must show (res, wk, hd, pr).            *)
(***************************************************************************)
Call(st0, e) ==
  LET st == Fresh(st0) IN
  CASE e.op = "aclone" -> {AddrNew(st, e.b, st.adr[e.a])}
    [] e.op = "adown"  -> {AddrNew(st, e.b, "W")}
    [] e.op = "aup"    -> {AddrUp(st, e.b)}
    [] e.op = "mbaddr" -> {AddrNew(st, e.b, "W")}
    [] e.op = "adrop"  -> {AddrDrop(st, e.a)}
    [] e.op = "mclone" -> {MbClone(st, e.b)}
    [] e.op = "mdrop"  -> MbDrop(st, e.a)
    [] e.op = "send"   -> {SendNew(st, e.a, e.b, "u", e.x, e.k = "d" \/ e.k = "ds",
                                   IF e.k = "s" \/ e.k = "ds" THEN "S" ELSE "-")}
    [] e.op = "bcast"  -> {SendNew(st, e.a, e.b, "b", e.x, FALSE, IF e.k = "s" THEN "S" ELSE "-")}
    [] e.op = "spoll"  -> SendPoll(st, e.a)
    [] e.op = "sdrop"  -> SendDrop(st, e.a)
    [] e.op = "rnew"   -> {RecvNew(st, e.a, e.b)}
    [] e.op = "rpoll"  -> RecvPoll(st, e.a)
    [] e.op = "rdrop"  -> RecvDrop(st, e.a)
    [] e.op = "dpoll"  -> DispPoll(st, e.a, e.k)
    [] e.op = "jnew"   -> {JoinNew(st, e.a, FALSE)}
    [] e.op = "cnew"   -> {JoinNew(st, e.a, TRUE)}
    [] e.op = "jpoll"  -> {JoinPoll(st, e.a, e.k)}
    [] e.op = "jdrop"  -> {JoinDrop(st, e.a)}
    [] e.op = "load"   -> {Load(st, e.a, e.b, e.k)}
    [] e.op = "unload" -> Unload(st, e.a)
    [] e.op = "probe"  -> {Probe(st)}
    [] e.op = "end"    -> {End(st)}

Can(st, e) ==
  CASE e.op = "aclone" -> e.a \in DOMAIN st.adr /\ e.b \notin DOMAIN st.adr
    [] e.op = "adown"  -> e.a \in DOMAIN st.adr /\ e.b \notin DOMAIN st.adr
    [] e.op = "aup"    -> e.a \in DOMAIN st.adr /\ st.adr[e.a] = "W" /\ e.b \notin DOMAIN st.adr
    [] e.op = "mbaddr" -> e.a \in st.mh /\ e.b \notin DOMAIN st.adr
    [] e.op = "adrop"  -> e.a \in DOMAIN st.adr
    [] e.op = "mclone" -> e.a \in st.mh /\ e.b \notin DOMAIN st.mbs
    [] e.op = "mdrop"  -> e.a \in st.mh
    [] e.op = "send"   -> e.a \notin DOMAIN st.snd /\ e.b \in DOMAIN st.adr
                          /\ (e.k \in {"s", "ds"} => st.adr[e.b] = "S")
    [] e.op = "bcast"  -> e.a \notin DOMAIN st.snd /\ e.b \in DOMAIN st.adr
                          /\ (e.k = "s" => st.adr[e.b] = "S")
    [] e.op = "spoll"  -> e.a \in DOMAIN st.snd /\ st.snd[e.a].fs # "end"
    [] e.op = "sdrop"  -> e.a \in DOMAIN st.snd /\ st.snd[e.a].fs # "end"
    [] e.op = "rnew"   -> e.a \notin DOMAIN st.rcv /\ e.b \in st.mh
    [] e.op = "rpoll"  -> e.a \in DOMAIN st.rcv /\ st.rcv[e.a].st \in {"new", "wait"}
    [] e.op = "rdrop"  -> e.a \in DOMAIN st.rcv
    [] e.op = "dpoll"  -> e.a \in DOMAIN st.rcv /\ st.rcv[e.a].st \in {"got", "run"}
    [] e.op = "jnew"   -> e.a \notin DOMAIN st.jn /\ e.b \in DOMAIN st.adr
    [] e.op = "cnew"   -> e.a \notin DOMAIN st.jn /\ e.b \in DOMAIN st.adr
    [] e.op = "jpoll"  -> e.a \in DOMAIN st.jn
    [] e.op = "jdrop"  -> e.a \in DOMAIN st.jn
    [] e.op = "load"   -> e.a \in DOMAIN st.snd /\
                          (CASE e.k = "a" -> e.b \in DOMAIN st.adr
                             [] e.k = "m" -> e.b \in st.mh
                             [] e.k = "s" -> e.b \in DOMAIN st.snd /\ st.snd[e.b].fs # "end" /\ e.b \notin Stowed(st))
    [] e.op = "unload" -> e.a \in DOMAIN st.snd
    [] e.op = "probe"  -> e.a \in DOMAIN st.adr
    [] e.op = "end"    -> /\ st.adr = << >> /\ st.mh = {} /\ st.rcv = << >> /\ st.jn = << >> /\ st.tk = << >> /\ st.sk = << >>
                          /\ st.ld = << >>
                          /\ \A s \in DOMAIN st.snd : st.snd[s].fs = "end"
=============================================================================
