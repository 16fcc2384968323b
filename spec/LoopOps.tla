------------------------------- MODULE LoopOps -------------------------------
(***************************************************************************)
(* Event loops: xtra::run, yield_once, select and join (lib.rs), as tasks  *)
(* that are polled and dropped from outside.  They are built on the same   *)
(* receives and dispatches as ChanOps describes.                           *)
(*                                                                         *)
(* A task k is [m: its mailbox, kind, fr: frames].  Frame d is a call of   *)
(* run ("run"), yield_once ("yld"), select ("sel") or join ("join"); frame *)
(* d+1 exists while a user callback at level d awaits a nested select or   *)
(* join.  A frame is [f, pc, stp, ex]:                                     *)
(*   pc   start   in Actor::started                                        *)
(*        recv    waiting for a message (select/join: and for the future)  *)
(*        disp    in a message's handler                                   *)
(*        ext     in the handler of the message that select/join takes     *)
(*                when its future has finished                             *)
(*        only    join, after the actor was stopped: only the future left  *)
(*        stop    in Actor::stopped                                        *)
(*   stp  the actor was asked to stop by the callback running at this      *)
(*        level, or by a message handled in a select/join it awaited       *)
(*   ex   the callback was entered before (it returned Pending since)      *)
(* The receive of frame d is number 1000*k + d.                            *)
(*                                                                         *)
(* What user code does when it is polled comes from a script, whose octal  *)
(* digits (low first) are consumed one by one; no digits left: pending.    *)
(*   0 pending    1 return    2 stop_self, return (started: return Err)    *)
(*   3 stop_all, return    4 panic    5 select    6 join    7 stop_self    *)
(* The selected future and Actor::stopped finish on anything but 0 and 4.  *)
(* A poll shows, in pr, what it did:                                       *)
(*   1/5 started entered/resumed    2/6 stopped entered/resumed            *)
(*   3 future polled    4 actor dropped    11 select gave the value        *)
(*   12 select gave the future back    13 join returned                    *)
(*   100+x handler of x entered    200+x resumed                           *)
(***************************************************************************)
EXTENDS SinkOps

LR(k, d) == 1000 * k + d
Lg(st, v) == [st EXCEPT !.pr = Append(@, v)]
Fr(st, k, d) == st.tk[k].fr[d]
SetPc(st, k, d, pc) == [st EXCEPT !.tk[k].fr[d].pc = pc, !.tk[k].fr[d].ex = FALSE]
Stp(st, k, d) == [st EXCEPT !.tk[k].fr[d].stp = TRUE]
Push(st, k, f) == [st EXCEPT !.tk[k].fr = Append(@, [f |-> f, pc |-> IF f = "run" THEN "start" ELSE "recv",
                                                    stp |-> FALSE, ex |-> FALSE])]
Pop(st, k, d) == [st EXCEPT !.tk[k].fr = SubSeq(@, 1, d - 1)]
Act(st) == st.sc % 8
Ate(st) == [st EXCEPT !.sc = @ \div 8]

\* A new receive on the task's mailbox, for frame d.
NewRecv(st, k, d) == RecvNew(st, LR(k, d), st.tk[k].m)
DropRecv(st, k, d) == IF LR(k, d) \in DOMAIN st.rcv THEN RecvDrop(st, LR(k, d)) ELSE {st}

\* A handler begins: as in DispPoll.
HandlerIn(st, k, d) ==
  LET r == LR(k, d)
      x == st.rcv[r].c
      cl == st.snd[x].k = "b" /\ st.snd[x].pay = "S"
  IN Lg(Sweep([st EXCEPT !.rcv[r].st = "run", !.rcv[r].own = IF cl THEN "S" ELSE "-",
                         !.scnt = IF cl THEN @ + 1 ELSE @,
                         !.tk[k].fr[d].stp = FALSE, !.tk[k].fr[d].ex = FALSE]), 100 + x)
\* It returned: its message's belongings are dropped, the context's mailbox is
\* released, the result delivered.
HandlerOut(st, k, d) ==
  LET r == LR(k, d)  v == st.rcv[r]
      t0 == DropRun(Forget(st, r), v)
      t1 == IF t0.snd[v.c].k = "u" THEN DropPay(t0, v.c) ELSE t0
  IN {Res(SetRep(u, v.c, "val"), IF st.tk[k].fr[d].stp THEN "brk" ELSE "cont") : u \in ReleaseRx(t1, v.m)}

RECURSIVE Callback(_, _, _), Acting(_, _, _), Dispatch(_, _, _), SelPoll(_, _, _), RunPoll(_, _), Frame(_, _, _)

(***************************************************************************)
(* The user callback at level d is polled: a handler or Actor::started.    *)
(* res: pend, ret, fail, panic.                                            *)
(***************************************************************************)
Callback(st, k, d) ==
  IF Len(st.tk[k].fr) > d
  THEN UNION {IF t.res \in {"pend", "panic"} THEN {t}
              ELSE Acting(Lg(t, CASE t.res = "left" -> 11 [] t.res = "right" -> 12 [] OTHER -> 13), k, d)
              : t \in Frame(st, k, d + 1)}
  ELSE IF Fr(st, k, d).ex
  THEN Acting(Lg(st, IF Fr(st, k, d).pc = "start" THEN 5 ELSE 200 + st.rcv[LR(k, d)].c), k, d)
  ELSE Acting([st EXCEPT !.tk[k].fr[d].ex = TRUE], k, d)
Acting(st, k, d) ==
  LET a == Act(st)  s == Ate(st)  starting == Fr(st, k, d).pc = "start" IN
  CASE a = 0 -> {Res(s, "pend")}
    [] a = 1 -> {Res(s, "ret")}
    [] a = 2 -> IF starting THEN {Res(s, "fail")} ELSE {Res(Stp(s, k, d), "ret")}
    [] a = 3 -> IF starting THEN {Res(s, "ret")} ELSE {Res(StopAll(s), "ret")}
    [] a = 4 -> {Res(s, "panic")}
    [] a = 7 -> Acting(IF starting THEN s ELSE Stp(s, k, d), k, d)
    [] OTHER -> UNION {IF t.res \in {"pend", "panic"} THEN {t}
                       ELSE Acting(Lg(t, CASE t.res = "left" -> 11 [] t.res = "right" -> 12 [] OTHER -> 13), k, d)
                       : t \in Frame(Push(s, k, IF a = 5 THEN "sel" ELSE "join"), k, d + 1)}

(***************************************************************************)
(* The dispatch at level d is polled.  res: pend, cont, brk, panic.        *)
(***************************************************************************)
Dispatch(st, k, d) ==
  LET r == LR(k, d)  v == st.rcv[r] IN
  IF v.c = SD THEN {Res(t, "brk") : t \in ReleaseRx(Forget(st, r), v.m)}
  ELSE UNION {IF t.res = "ret" THEN HandlerOut(t, k, d) ELSE {t}
              : t \in Callback(IF v.st = "got" THEN HandlerIn(st, k, d) ELSE st, k, d)}

(***************************************************************************)
(* select/join at level d is polled.  res: pend, panic, left, right, join. *)
(***************************************************************************)
SelDone(st, k, d, res) == Res(Pop(st, k, d), IF st.tk[k].fr[d].f = "join" THEN "join" ELSE res)
\* A message handled meanwhile stopped the actor: whoever awaits this learns it.
Tell(st, k, d) == IF d > 1 THEN Stp(st, k, d - 1) ELSE st
\* The handler of the message taken after the future had finished.
SelExt(st, k, d) ==
  UNION {CASE t.res = "cont" -> {SelDone(t, k, d, "left")}
           [] t.res = "brk"  -> {SelDone(Tell(t, k, d), k, d, "left")}
           [] OTHER          -> {t}
         : t \in Dispatch(st, k, d)}
SelDisp(st, k, d) ==
  UNION {CASE t.res = "cont" -> SelPoll(SetPc(t, k, d, "recv"), k, d)
           [] t.res = "brk"  -> IF Fr(t, k, d).f = "join"
                                THEN SelPoll(SetPc(Tell(t, k, d), k, d, "only"), k, d)
                                ELSE {SelDone(Tell(t, k, d), k, d, "right")}
           [] OTHER          -> {t}
         : t \in Dispatch(st, k, d)}
SelPoll(st, k, d) ==
  LET pc == Fr(st, k, d).pc  r == LR(k, d) IN
  CASE pc = "disp" -> SelDisp(st, k, d)
    [] pc = "ext"  -> SelExt(st, k, d)
    [] OTHER ->
       LET s0 == IF pc = "recv" /\ r \notin DOMAIN st.rcv THEN NewRecv(st, k, d) ELSE st
           a == Act(s0)
           s == Lg(Ate(s0), 3)
       IN CASE a = 4 -> {Res(s, "panic")}
            [] a = 0 -> IF pc = "only" THEN {Res(s, "pend")}
                        ELSE UNION {IF t.res = "pend" THEN {t} ELSE SelDisp(SetPc(t, k, d, "disp"), k, d)
                                    : t \in RecvPoll(s, r)}
            \* The future has finished.  If there is a message for the receive
            \* already it is handled first, or else it stays in the mailbox.
            [] OTHER -> IF pc = "only" THEN {SelDone(s, k, d, "left")}
                        ELSE UNION {IF t.res = "pend" THEN {SelDone(u, k, d, "left") : u \in RecvDrop(t, r)}
                                    ELSE SelExt(SetPc(t, k, d, "ext"), k, d)
                                    : t \in RecvPoll(s, r)}
                             \cup {SelDone(u, k, d, "left") : u \in RecvDrop(s, r)}

(***************************************************************************)
(* run and yield_once (always at level 1).  res: pend, panic, ready, fail; *)
(* cont, brk.                                                              *)
(***************************************************************************)
Stopped(st, k) ==
  LET a == Act(st)  v == Fr(st, k, 1)
      s == Lg([Ate(st) EXCEPT !.tk[k].fr[1].ex = TRUE], IF v.ex THEN 6 ELSE 2)
  IN {Res(s, CASE a = 0 -> "pend" [] a = 4 -> "panic" [] OTHER -> "ready")}
Dispd(st, k) ==
  UNION {IF t.res \in {"pend", "panic"} \/ Fr(t, k, 1).f = "yld" THEN {t}
         ELSE IF t.res = "brk" THEN Stopped(SetPc(t, k, 1, "stop"), k)
         ELSE RunPoll(SetPc(t, k, 1, "recv"), k)
         : t \in Dispatch(st, k, 1)}
RunPoll(st, k) ==
  LET pc == Fr(st, k, 1).pc  r == LR(k, 1) IN
  CASE pc = "start" ->
         LET s == IF Fr(st, k, 1).ex \/ Len(st.tk[k].fr) > 1 THEN st ELSE Lg(st, 1)
         IN UNION {IF t.res \in {"pend", "panic", "fail"} THEN {t}
                   ELSE IF Fr(t, k, 1).stp THEN Stopped(SetPc(t, k, 1, "stop"), k)
                   ELSE RunPoll(SetPc(t, k, 1, "recv"), k)
                   : t \in Callback(s, k, 1)}
    [] pc = "recv" ->
         UNION {IF t.res = "pend" THEN {t} ELSE Dispd(SetPc(t, k, 1, "disp"), k)
                : t \in RecvPoll(IF r \in DOMAIN st.rcv THEN st ELSE NewRecv(st, k, 1), r)}
    [] pc = "disp" -> Dispd(st, k)
    [] pc = "stop" -> Stopped(st, k)
Frame(st, k, d) == IF Fr(st, k, d).f \in {"run", "yld"} THEN RunPoll(st, k) ELSE SelPoll(st, k, d)

(***************************************************************************)
(* The calls.                                                              *)
(*                                                                         *)
(* xtra::spawn_tokio and the like take an address too, and give it back;   *)
(* the runtime polls the task from then on, until its end, and only when   *)
(* it was woken: that makes no difference, for being polled while nothing  *)
(* happened does nothing.                                                  *)
(***************************************************************************)
Runtimes == {"tokio", "smol", "astd"}
TaskNew(st, k, m, kind) ==
  [st EXCEPT !.mh = @ \ {m}, !.res = "ok",
             !.tk = Put(@, k, [m |-> m, kind |-> IF kind \in Runtimes THEN "spawned" ELSE kind,
                               fr |-> <<[f |-> IF kind \in Runtimes THEN "run" ELSE kind,
                                         pc |-> IF kind \in Runtimes \cup {"run"} THEN "start" ELSE "recv",
                                         stp |-> FALSE, ex |-> FALSE]>>])]
\* Everything the task still has goes, in whatever order: receives and
\* dispatches R, and (0) its mailbox.
RECURSIVE LetGo(_, _, _)
LetGo(st, m, R) ==
  IF R = {} THEN {st}
  ELSE UNION {UNION {LetGo(t, m, R \ {r}) : t \in IF r = 0 THEN ReleaseRx(st, m) ELSE RecvDrop(st, r)} : r \in R}
TaskGone(st, k, res) ==
  LET m == st.tk[k].m
      R == {r \in DOMAIN st.rcv : r \div 1000 = k}
  IN {Lg(Res([t EXCEPT !.tk = Minus(@, k)], res), 4) : t \in LetGo(st, m, R \cup {0})}
TaskPoll(st, k, script) ==
  UNION {CASE t.res = "pend" -> {t}
           [] t.res \in {"panic", "ready", "fail"} -> TaskGone(t, k, t.res)
           \* yield_once, select and join leave the mailbox to their caller
           [] OTHER -> {Lg([t EXCEPT !.tk = Minus(@, k), !.mh = @ \cup {t.tk[k].m}], 4)}
         : t \in Frame([st EXCEPT !.sc = script], k, 1)}

LoopOp == {"knew", "kpoll", "kdrop"}
LCall(st0, e) ==
  IF e.op \notin LoopOp THEN SCall(st0, e)
  ELSE LET st == Fresh(st0) IN
       CASE e.op = "knew"  -> {TaskNew(st, e.a, e.b, e.k)}
         [] e.op = "kpoll" -> {[t EXCEPT !.sc = 0] : t \in TaskPoll(st, e.a, e.b)}
         [] e.op = "kdrop" -> TaskGone(st, e.a, "ok")
LCan(st, e) ==
  CASE e.op = "knew"  -> e.a \notin DOMAIN st.tk /\ e.b \in st.mh
    [] e.op = "kpoll" -> e.a \in DOMAIN st.tk
    [] e.op = "kdrop" -> e.a \in DOMAIN st.tk /\ st.tk[e.a].kind # "spawned"
    [] OTHER -> SCan(st, e)
=============================================================================
