------------------------------- MODULE SinkOps -------------------------------
(***************************************************************************)
(* Sinks made from addresses and channels (into_sink in address.rs and     *)
(* message_channel.rs).  A sink owns the handle it was made from and, at   *)
(* any time, at most one send: that of the item it was given last.         *)
(*   sk   sinks: id -> [h: S/W, cur: the send or 0, rdy: poll_ready said   *)
(*        so and no item was given since, over: closed or failed]          *)
(* The items' sends are ordinary ones (default priority, not detached),    *)
(* but nobody except the sink polls or drops them.                         *)
(***************************************************************************)
EXTENDS ChanOps

InSinks(st) == {st.sk[k].cur : k \in DOMAIN st.sk} \ {0}

SinkNew(st, k, a) ==
  [st EXCEPT !.sk = Put(@, k, [h |-> st.adr[a], cur |-> 0, rdy |-> FALSE, over |-> FALSE]),
             !.adr = Minus(@, a), !.res = "ok"]
SinkStart(st, k, s) ==
  [SendFrom(st, s, st.sk[k].h, "u", 0, FALSE, "-") EXCEPT !.sk[k].cur = s, !.sk[k].rdy = FALSE]
\* poll_ready, poll_flush and poll_close all drive the item under way to its
\* end, that is until it was handled.
SinkPoll(st, k, what) ==
  LET done(t) == [Res(t, "ok") EXCEPT !.sk[k].cur = 0, !.sk[k].rdy = (what = "ready" \/ @), !.sk[k].over = what = "close"]
      cur == st.sk[k].cur
  IN IF cur = 0 THEN {done(st)}
     ELSE {CASE t.res = "pend" -> t
             [] t.res = "val"  -> done(t)
             [] OTHER          -> [t EXCEPT !.sk[k].cur = 0, !.sk[k].over = TRUE]   \* disc, intr
           : t \in SendPoll(st, cur)}
SinkDrop(st, k) ==
  LET v == st.sk[k]
      s0 == [st EXCEPT !.sk = Minus(@, k)]
      handle(t) == IF v.h = "S" THEN DecSender(t) ELSE t
      item(t) == IF v.cur = 0 THEN {t} ELSE SendDrop(t, v.cur)
  IN {Res(t, "ok") : t \in item(handle(s0)) \cup {handle(u) : u \in item(s0)}}

SinkOp == {"xnew", "xstart", "xpoll", "xdrop"}
SCall(st0, e) ==
  IF e.op \notin SinkOp THEN Call(st0, e)
  ELSE LET st == Fresh(st0) IN
       CASE e.op = "xnew"   -> {SinkNew(st, e.a, e.b)}
         [] e.op = "xstart" -> {SinkStart(st, e.a, e.b)}
         [] e.op = "xpoll"  -> SinkPoll(st, e.a, e.k)
         [] e.op = "xdrop"  -> SinkDrop(st, e.a)
SCan(st, e) ==
  CASE e.op = "xnew"   -> e.a \notin DOMAIN st.sk /\ e.b \in DOMAIN st.adr
    [] e.op = "xstart" -> e.a \in DOMAIN st.sk /\ st.sk[e.a].rdy /\ ~st.sk[e.a].over /\ e.b \notin DOMAIN st.snd
    [] e.op = "xpoll"  -> e.a \in DOMAIN st.sk /\ ~st.sk[e.a].over
    [] e.op = "xdrop"  -> e.a \in DOMAIN st.sk
    [] e.op \in {"spoll", "sdrop"} -> Can(st, e) /\ e.a \notin InSinks(st) \cup Stowed(st)
    [] e.op = "load" -> Can(st, e) /\ (e.k = "s" => e.b \notin InSinks(st))
    [] OTHER -> Can(st, e)
=============================================================================
