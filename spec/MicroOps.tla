------------------------------ MODULE MicroOps ------------------------------
(***************************************************************************)
(* API calls as the sequences of atomic steps they really consist of, so   *)
(* that calls made from different threads can interleave.                  *)
(*                                                                         *)
(* A configuration c:                                                      *)
(*   st    the channel (ChanOps)                                           *)
(*   th    threads inside a call: id -> [e: the call, ts: what is left to  *)
(*         do, res, hd: what it will show, owe: tasks it must wake]        *)
(*   np    futures known to the channel whose task is not yet              *)
(*   pool  strong references that destroyed broadcasts owned, still to be  *)
(*         released by whoever let go of the broadcast last                *)
(*   lk    the thread in the middle of a longer critical section, or 0     *)
(*                                                                         *)
(* ts is a bag of chains of steps; chains of one bag may be executed in    *)
(* any order.  Where the order within a call is of no consequence for what *)
(* the properties promise, it is left open.                                *)
(***************************************************************************)
EXTENDS ChanOps

NoChains == << >>
AddC(ts, ch) == IF ch = <<>> THEN ts
                ELSE IF ch \in DOMAIN ts THEN [ts EXCEPT ![ch] = @ + 1] ELSE (ch :> 1) @@ ts
DelC(ts, ch) == IF ts[ch] = 1 THEN [d \in DOMAIN ts \ {ch} |-> ts[d]] ELSE [ts EXCEPT ![ch] = @ - 1]
RECURSIVE AddCs(_, _)
AddCs(ts, s) == IF s = <<>> THEN ts ELSE AddCs(AddC(ts, Head(s)), Tail(s))

Idle(s) == [st |-> s, th |-> << >>, np |-> {}, pool |-> 0, lk |-> 0]

(***************************************************************************)
(* Outcome of one step: the new channel state, steps to come next in the   *)
(* same chain, further chains, futures whose task became unknown/known.    *)
(***************************************************************************)
Out(s, pre, par) == [st |-> s, pre |-> pre, par |-> par, new |-> {}, polled |-> {}, hold |-> FALSE]
Just(s) == Out(s, <<>>, <<>>)
T(n, a) == <<n, a>>
C1(n, a) == <<<<n, a>>>>

Dec(s) == LET s1 == [s EXCEPT !.scnt = @ - 1]
          IN Out(s1, IF s1.scnt = 0 THEN C1("shutR", 0) ELSE <<>>, <<>>)
\* Chains that destroy single-recipient message x / let go of mailbox m.
Kill(s, x) == IF s.snd[x].k = "u" THEN <<C1("rep", x), C1("pay", x)>> ELSE <<>>
Rel(m) == <<T("holdQ", m), T("decR", 0)>>
HoldQ(s, m) == [s EXCEPT !.mbs = IF s.mbs[m].h = 1 THEN Minus(@, m) ELSE [@ EXCEPT ![m].h = @ - 1]]

\* What happens to receive r after the locked attempt to take something.
AfterTake(t, r) ==
  IF t.rcv[r].st = "wait" THEN [Out(t, C1("slotP", r), <<>>) EXCEPT !.new = {WR(r)}] ELSE Just(t)

(***************************************************************************)
(* A broadcast is queued under the lock, and so are the idle receivers     *)
(* told; but those and the waiting sends look at their slots without it,   *)
(* so they may notice one after the other.                                 *)
(***************************************************************************)
PushB(s, x) == [s EXCEPT !.mbs = [m \in DOMAIN @ |-> [@[m] EXCEPT !.q = Append(@, x)]]]
TellPre(s) == IF s.wr = {} THEN <<>> ELSE C1("tellB", 0)
Held(o) == [o EXCEPT !.hold = TRUE]
\* Queue broadcast x; nothing else to be done under the lock.
PushOut(s, x, pre, par) ==
  IF s.wr = {} THEN Out(PushB(s, x), pre, par)
  ELSE Held(Out(PushB(s, x), <<T("tellB", 0), T("unl", 0)>> \o pre, par))
MTakeB(s, r) ==
  LET m == s.rcv[r].m  q == s.mbs[m].q
  IN {LET t == [Got(s, r, q[i]) EXCEPT !.mbs[m].q = RemoveIdx(@, i)]
      IN IF BFull(t) \/ t.wb = <<>> THEN Just(t) ELSE Held(Out(t, C1("relB", 0), <<>>))
      : i \in {j \in DOMAIN q : Prio(s, q[j]) = TopPrio(s, q)}}
MTryRecv(s, r) ==
  LET q  == s.mbs[s.rcv[r].m].q
      up == TopPrio(s, s.uq)
      bp == TopPrio(s, q)
      U  == {Just(t) : t \in TakeU(s, r)}
  IN IF up = bp /\ s.uq # <<>> THEN U \cup MTakeB(s, r)
     ELSE IF up > bp THEN U
     ELSE IF q # <<>> THEN MTakeB(s, r)
     ELSE {AfterTake(t, r) : t \in LockedTryRecv(s, r)}

\* One step <<n, a>> of call e on channel state s.
Do(s, e, n, a) ==
  CASE n = "call"  -> {Just(t) : t \in Call(s, e)}
    [] n = "adrop" -> LET s1 == [s EXCEPT !.adr = Minus(@, a), !.res = "ok"]
                      IN IF s.adr[a] = "S" THEN {Dec(s1)} ELSE {Just(s1)}
    [] n = "decS"  -> {Dec(s)}
    [] n = "shutR" -> LET q == s.wr IN
                      {Out([s EXCEPT !.wr = {}], <<>>, [i \in 1..Cardinality(q) |->
                             C1("tellSd", CHOOSE r \in q : Cardinality({y \in q : y <= r}) = i)])}
    [] n = "tellSd" ->
         IF a \in DOMAIN s.rcv /\ s.rcv[a].st = "wait" /\ s.rcv[a].slot = NoSlot
         THEN {Just(Wake([s EXCEPT !.rcv[a].slot = SdSlot], WR(a)))} ELSE {Just(s)}
    \* mailboxes
    [] n = "mcq"   -> {Just([s EXCEPT !.mbs = Put(@, a, [h |-> 1, q |-> <<>>]), !.mh = @ \cup {a}, !.res = "ok"])}
    [] n = "mcr"   -> {Just([s EXCEPT !.rcnt = @ + 1])}
    [] n = "mdrop" -> {Out([s EXCEPT !.mh = @ \ {a}, !.res = "ok"], Rel(a), <<>>)}
    [] n = "holdQ" -> {Just(HoldQ(s, a))}
    [] n = "decR"  -> LET s1 == [s EXCEPT !.rcnt = @ - 1]
                      IN {Out(s1, C1(IF s1.rcnt = 0 THEN "shutS" ELSE "relB", 0), <<>>)}
    [] n = "relB"  ->
         IF BFull(s) \/ s.wb = <<>> THEN {Just(s)}
         ELSE {Held(Out(PushB([Admit(s, s.wb[i]) EXCEPT !.wb = RemoveIdx(@, i)], s.wb[i]),
                        TellPre(s) \o C1("relB", 0), <<>>)) : i \in WCands(s, s.wb)}
    [] n = "tellB" -> {LET t == Wake([s EXCEPT !.rcv[r].slot = BcSlot, !.wr = @ \ {r}], WR(r))
                       IN Held(Out(t, TellPre(t), <<>>)) : r \in s.wr}
    [] n = "unl"   -> {Just(s)}
    [] n = "shutS" ->
         LET s1 == [s EXCEPT !.jn = [j \in DOMAIN @ |-> [@[j] EXCEPT !.st = "note"]],
                             !.wk = @ \cup {WJ(j) : j \in {i \in DOMAIN s.jn : s.jn[i].st = "listen" /\ s.jn[i].w}},
                             !.uq = <<>>, !.rq = {}, !.wu = <<>>, !.wb = <<>>]
             q == s.uq  w == s.wu \o s.wb
         IN {Out(s1, <<>>, [i \in 1..Len(q) |-> C1("rep", q[i])] \o [i \in 1..Len(q) |-> C1("pay", q[i])]
                           \o [i \in 1..Len(w) |-> C1("cls", w[i])])}
    [] n = "cls"   -> IF s.snd[a].fs = "wait"
                      THEN {Out(Wake([s EXCEPT !.snd[a].fs = "cls"], WS(a)), <<>>, Kill(s, a))} ELSE {Just(s)}
    \* messages
    [] n = "rep"   -> {Just(SetRep(s, a, "gone"))}
    [] n = "val"   -> {Just(SetRep(s, a, "val"))}
    [] n = "pay"   -> IF s.snd[a].pay = "S" THEN {Dec([s EXCEPT !.snd[a].pay = "-"])} ELSE {Just(s)}
    [] n = "own"   -> IF s.snd[a].own = "S" THEN {Dec([s EXCEPT !.snd[a].own = "-"])}
                      ELSE {Just([s EXCEPT !.snd[a].own = "-"])}
    \* sending
    [] n = "sendL" ->
         IF ~Conn(s) THEN {Out([s EXCEPT !.snd[a].fs = "end", !.res = "disc"], <<>>, <<C1("own", a)>> \o Kill(s, a))}
         ELSE IF s.snd[a].k = "b" /\ ~BFull(s)
         THEN {PushOut([s EXCEPT !.snd[a].fs = "end", !.res = "ok"], a, <<>>, <<C1("own", a)>>)}
         ELSE {CASE t.snd[a].fs = "acc"  -> Out(t, C1("acc", a), <<C1("own", a)>>)
                 [] t.snd[a].fs = "wait" -> [Out(t, C1("wpoll", a), <<C1("own", a)>>) EXCEPT !.new = {WS(a)}]
                 [] OTHER                -> Out(t, <<>>, <<C1("own", a)>>)
                 : t \in LockedSend(s, a)}
    [] n = "acc"   -> {Just(AfterAccept(s, a))}
    [] n = "wpoll" ->
         {[CASE s.snd[a].fs = "wait" -> Just(Res(s, "pend"))
             [] s.snd[a].fs = "adm"  -> Out(s, C1("acc", a), <<>>)
             [] OTHER                -> Just([Res(s, "disc") EXCEPT !.snd[a].fs = "end"])
           EXCEPT !.polled = {WS(a)}]}
    [] n = "prep"  -> {Just(PollRep(s, a))}
    [] n = "sdrop" ->
         LET fs == s.snd[a].fs
             s1 == [s EXCEPT !.snd[a].fs = "end", !.rw = @ \ {a}, !.wu = Drop1(@, a), !.wb = Drop1(@, a), !.res = "ok"]
         IN {Out(s1, <<>>, (IF fs = "new" THEN <<C1("own", a)>> ELSE <<>>)
                           \o (IF fs \in {"new", "wait"} THEN Kill(s, a) ELSE <<>>))}
    \* receiving
    [] n = "recvL" -> MTryRecv(s, a)
    [] n = "slotP" ->
         LET v == s.rcv[a].slot IN
         {[CASE v = NoSlot -> Just(Res(s, "pend"))
             [] v = SdSlot -> Just(Got(s, a, SD))
             [] v = BcSlot -> Out(s, C1("nextB", a), <<>>)
             [] OTHER      -> Just(Got(s, a, v))
           EXCEPT !.polled = {WR(a)}]}
    [] n = "nextB" -> LET again == MTryRecv([s EXCEPT !.rcv[a].st = "new"], a)
                      IN IF s.mbs[s.rcv[a].m].q = <<>> THEN again ELSE MTakeB(s, a) \cup again
    [] n = "rdrop" ->   \* not registered: nothing to give back
         LET v == s.rcv[a]
         IN {Out(Forget(s, a), Rel(v.m),
                 (IF v.own = "S" THEN <<C1("decS", 0)>> ELSE <<>>)
                 \o (IF v.st \in {"got", "run"} /\ v.c # SD THEN Kill(s, v.c) ELSE <<>>))}
    [] n = "cancelL" ->
         LET v == s.rcv[a]  s1 == Forget(s, a)
         IN {Out(t, Rel(v.m), <<>>) : t \in IF v.slot > 0 THEN Requeue(s1, v.slot) ELSE {s1}}
    \* dispatching
    [] n = "enter" ->
         LET x == s.rcv[a].c
             cl == s.snd[x].k = "b" /\ s.snd[x].pay = "S"
         IN {Out([s EXCEPT !.hd = x, !.rcv[a].st = "run", !.rcv[a].own = IF cl THEN "S" ELSE "-",
                           !.scnt = IF cl THEN @ + 1 ELSE @], C1("act", a), <<>>)}
    [] n = "act"   ->
         CASE e.k = "pend"    -> {Just(Res(s, "pend"))}
           [] e.k = "stopall" -> {Out(s, <<T("bcSD", 0), T("fin", a)>>, <<>>)}
           [] OTHER           -> {Out(s, C1("fin", a), <<>>)}
    [] n = "bcSD"  -> {PushOut(s, SD, <<>>, <<>>)}
    [] n = "fin"   ->
         LET v == s.rcv[a]
             x == v.c
             u == s.snd[x].k = "u"
         IN {Out(Res(Forget(s, a), CASE e.k = "stop" -> "brk" [] e.k = "panic" -> "panic" [] OTHER -> "cont"),
                 Rel(v.m),
                 (IF v.own = "S" THEN <<C1("decS", 0)>> ELSE <<>>)
                 \o (IF u THEN <<C1("pay", x), C1(IF e.k = "panic" THEN "rep" ELSE "val", x)>> ELSE <<>>))}
    [] n = "dsd"   -> {Out(Res(Forget(s, a), "brk"), Rel(s.rcv[a].m), <<>>)}

Locks == {"sendL", "recvL", "nextB", "cancelL", "relB", "shutS", "shutR", "bcSD", "mcq"}

(***************************************************************************)
(* The chains a call starts with.  What the caller owns does not change    *)
(* kind under its feet, so this may look at the state.                     *)
(***************************************************************************)
Chains(s, e) ==
  CASE e.op = "adrop"  -> <<C1("adrop", e.a)>>
    [] e.op = "mclone" -> <<C1("mcq", e.b), C1("mcr", 0)>>
    [] e.op = "mdrop"  -> <<C1("mdrop", e.a)>>
    [] e.op = "spoll"  -> <<C1(CASE s.snd[e.a].fs = "new" -> "sendL"
                                 [] s.snd[e.a].fs \in {"wait", "adm", "cls"} -> "wpoll"
                                 [] OTHER -> "prep", e.a)>>
    [] e.op = "sdrop"  -> <<C1("sdrop", e.a)>>
    [] e.op = "rpoll"  -> <<C1(IF s.rcv[e.a].st = "new" THEN "recvL" ELSE "slotP", e.a)>>
    [] e.op = "rdrop"  -> <<C1(IF s.rcv[e.a].st = "wait" THEN "cancelL" ELSE "rdrop", e.a)>>
    [] e.op = "dpoll"  -> <<C1(IF s.rcv[e.a].c = SD THEN "dsd"
                               ELSE IF s.rcv[e.a].st = "got" THEN "enter" ELSE "act", e.a)>>
    [] OTHER           -> <<C1("call", 0)>>

Begin(c, t, e) ==
  [c EXCEPT !.th = Put(@, t, [e |-> e, ts |-> AddCs(NoChains, Chains(c.st, e)), res |-> "", hd |-> 0, owe |-> {}])]

(***************************************************************************)
(* Broadcasts that nobody holds any more give up what they own.            *)
(***************************************************************************)
HeldC(s, x) ==
  \/ s.snd[x].fs \in {"new", "wait"}
  \/ \E m \in DOMAIN s.mbs : \E i \in DOMAIN s.mbs[m].q : s.mbs[m].q[i] = x
  \/ \E r \in DOMAIN s.rcv : s.rcv[r].c = x /\ s.rcv[r].st = "got"
Shed(c) ==
  LET X == {x \in DOMAIN c.st.snd : c.st.snd[x].k = "b" /\ c.st.snd[x].pay = "S" /\ ~HeldC(c.st, x)}
  IN IF X = {} THEN c
     ELSE [c EXCEPT !.st.snd = [x \in DOMAIN @ |-> IF x \in X THEN [@[x] EXCEPT !.pay = "-"] ELSE @[x]],
                    !.pool = @ + Cardinality(X)]

Settle(c, t, n, o, ts) ==
  LET np == (c.np \cup o.new) \ o.polled
      r0 == c.th[t]
  IN Shed([c EXCEPT !.st = Fresh(o.st), !.np = np,
                    !.lk = IF o.hold THEN t ELSE IF n \in {"relB", "unl"} THEN 0 ELSE @,
                    !.th[t] = [r0 EXCEPT !.ts = AddCs(ts, o.par),
                                         !.res = IF o.st.res # "" THEN o.st.res ELSE @,
                                         !.hd = IF o.st.hd # 0 THEN o.st.hd ELSE @,
                                         !.owe = @ \cup (o.st.wk \ np)]])

\* All configurations thread t may get to with one step.
Micro(c, t) ==
  LET r == c.th[t] IN
  UNION {LET k == Head(ch) IN
         IF k[1] \in Locks /\ c.lk # 0 /\ ~(c.lk = t /\ k[1] = "relB") THEN {}
         ELSE {Settle(c, t, k[1], o, AddC(DelC(r.ts, ch), o.pre \o Tail(ch))) : o \in Do(c.st, r.e, k[1], k[2])}
         : ch \in DOMAIN r.ts}
  \cup (IF c.pool = 0 THEN {}
        ELSE LET o == Dec(c.st)
             IN {Settle([c EXCEPT !.pool = @ - 1], t, "pool", o, AddC(r.ts, o.pre))})

Finished(c, t) == DOMAIN c.th[t].ts = {}
Leave(c, t) == [c EXCEPT !.th = Minus(@, t)]

Steps(c) == UNION {Micro(c, t) : t \in DOMAIN c.th}
RECURSIVE Clo(_, _)
Clo(seen, front) ==
  IF front = {} THEN seen
  ELSE LET nx == (UNION {Steps(c) : c \in front}) \ seen IN Clo(seen \cup nx, nx)
Closure(CS) == Clo(CS, CS)

\* One call with nobody else around: its outcomes.
Alone(s, e) ==
  {[c.st EXCEPT !.res = c.th[1].res, !.hd = c.th[1].hd, !.wk = c.th[1].owe] :
     c \in {d \in Closure({Begin(Idle(s), 1, e)}) : Finished(d, 1) /\ d.pool = 0}}
=============================================================================
