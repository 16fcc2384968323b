------------------------------- MODULE XtraSeq -------------------------------
(***************************************************************************)
(* xtra's channel with whole API calls (one poll, one drop, one clone) as  *)
(* steps.  Exhaustively checked for small constants; its state graph is    *)
(* exported (GraphOut) and every transition of it is walked through the    *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS SpanOps, TLCExt
CONSTANTS Cap,        \* bound, -1 = unbounded
          NA, NM, NS, NR, NJ,   \* how many addresses, mailboxes, sends, receives, join handles
          Prios,      \* priorities a send may have
          SKinds,     \* subset of {"-", "d", "s", "ds"}: plain, detached, owns a strong address
          BKinds,     \* subset of {"-", "s"}
          Acts,       \* what handlers may do: subset of {pend, ret, stop, stopall, panic}
          NX, NL,     \* how many sinks, how many things messages own at a time
          Md, Spans,  \* tracing: who listens, which of the user's spans sends happen in
          NK, Kinds, Scripts,   \* event loops: how many, which, what user code does when polled
          Ops         \* API calls under study

VARIABLES st, last
vars == <<st, last>>
Core(s) == [s EXCEPT !.wk = {}, !.res = "", !.hd = 0, !.pr = <<>>, !.sc = 0]
View == Core(st)

Min0(S, n) == {i \in 1..n : i \notin S /\ \A j \in 1..(i-1) : j \in S}
Ev(op, a, b, x, k) == [op |-> op, a |-> a, b |-> b, x |-> x, k |-> k]

FreshA == Min0(DOMAIN st.adr, NA)
FreshM == Min0(DOMAIN st.mbs, NM)
FreshS == Min0(DOMAIN st.snd, NS)
FreshR == Min0(DOMAIN st.rcv, NR)
FreshK == Min0(DOMAIN st.tk, NK)
FreshX == Min0(DOMAIN st.sk, NX)
FreshJ == Min0(DOMAIN st.jn, NJ)
\* Of several handles of one strength any will do: they are interchangeable.
RepA == {a \in DOMAIN st.adr : \A b \in DOMAIN st.adr : st.adr[b] = st.adr[a] => a <= b}
\* Not the receives of event loops.
OwnR == {r \in DOMAIN st.rcv : r < 1000}

\* Messages there are to put something into.
RECURSIVE Loaded(_)
Loaded(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Len(st.ld[x]) + Loaded(S \ {x})
Alive == {s \in DOMAIN st.snd : Exists(st, s) /\ Loaded(DOMAIN st.ld) < NL}

Events ==
  UNION {
    {Ev("aclone", a, b, 0, "-") : a \in RepA, b \in FreshA},
    {Ev("adown", a, b, 0, "-") : a \in RepA, b \in FreshA},
    {Ev("aup", a, b, 0, "-") : a \in RepA, b \in FreshA},
    {Ev("mbaddr", m, b, 0, "-") : m \in st.mh, b \in FreshA},
    {Ev("adrop", a, 0, 0, "-") : a \in RepA},
    {Ev("mclone", m, n, 0, "-") : m \in st.mh, n \in FreshM},
    {Ev("mdrop", m, 0, 0, "-") : m \in st.mh},
    {Ev("send", s, a, p, k) : s \in FreshS, a \in RepA, p \in Prios, k \in SKinds},
    {Ev("bcast", s, a, p, k) : s \in FreshS, a \in RepA, p \in Prios, k \in BKinds},
    {Ev("spoll", s, 0, x, "-") : s \in {s \in DOMAIN st.snd : st.snd[s].fs = "new"}, x \in Spans},
    {Ev("spoll", s, 0, 0, "-") : s \in {s \in DOMAIN st.snd : st.snd[s].fs # "new"}},
    {Ev("sdrop", s, 0, 0, "-") : s \in DOMAIN st.snd},
    {Ev("rnew", r, m, 0, "-") : r \in FreshR, m \in st.mh},
    {Ev("rpoll", r, 0, 0, "-") : r \in OwnR},
    {Ev("rdrop", r, 0, 0, "-") : r \in OwnR},
    {Ev("dpoll", r, 0, MaxOf(Spans), k) : r \in OwnR, k \in Acts},
    {Ev("jnew", j, a, 0, "-") : j \in FreshJ, a \in RepA},
    {Ev("cnew", j, a, 0, "-") : j \in FreshJ, a \in RepA},
    {Ev("jpoll", j, 0, 0, k) : j \in DOMAIN st.jn, k \in {"pend", "ret"}},
    {Ev("jdrop", j, 0, 0, "-") : j \in DOMAIN st.jn},
    {Ev("xnew", k, a, 0, "-") : k \in FreshX, a \in RepA},
    {Ev("xstart", k, s, 0, "-") : k \in DOMAIN st.sk, s \in FreshS},
    {Ev("xpoll", k, 0, MaxOf(Spans), w) : k \in DOMAIN st.sk, w \in {"ready", "flush", "close"}},
    {Ev("xdrop", k, 0, 0, "-") : k \in DOMAIN st.sk},
    {Ev("knew", k, m, 0, f) : k \in FreshK, m \in st.mh, f \in Kinds},
    {Ev("kpoll", k, s, MaxOf(Spans), "-") : k \in DOMAIN st.tk, s \in Scripts},
    {Ev("kdrop", k, 0, 0, "-") : k \in DOMAIN st.tk},
    {Ev("dspan", r, 0, 0, "-") : r \in OwnR},
    {Ev("waits", 0, 0, 0, "-")},
    {Ev("load", s, a, 0, "a") : s \in Alive, a \in RepA},
    {Ev("load", s, m, 0, "m") : s \in Alive, m \in st.mh},
    {Ev("load", s, t, 0, "s") : s \in Alive, t \in DOMAIN st.snd},
    {Ev("unload", s, 0, 0, "-") : s \in DOMAIN st.ld},
    {Ev("probe", a, 0, 0, "-") : a \in RepA} }

Init == st = [Init0(Cap) EXCEPT !.md = Md] /\ last = Ev("init", 0, 0, 0, "-")
Next == \E e \in Events :
          /\ e.op \in Ops
          /\ PCan(st, e)
          /\ st' \in PCall(st, e)
          /\ last' = e
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Export of the state graph (evaluated on every transition).              *)
(***************************************************************************)
Name(s) == ToString(<<TLCFP(Core(s)), TLCFP(<<Core(s), 1>>)>>)
GraphOut ==
  PrintT("G" \o Name(st) \o "|" \o Name(st') \o "|" \o
         ToString(<<last'.op, last'.a, last'.b, last'.x, last'.k>>) \o "|" \o
         ToString(<<st'.res, st'.hd, st'.wk, st'.pr>>))
InitOut == TLCGet("level") > 1 \/ PrintT("I" \o Name(st))
NoCap == -1   \* for configurations without a bound

(***************************************************************************)
(* Invariants.                                                             *)
(***************************************************************************)
Us == {s \in DOMAIN st.snd : st.snd[s].k = "u"}
Bs == {s \in DOMAIN st.snd : st.snd[s].k = "b"}
CountIn(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
UPlaces(x) == CountIn(st.uq, x) + CountIn(st.wu, x)
            + Cardinality({r \in DOMAIN st.rcv : st.rcv[r].st = "wait" /\ st.rcv[r].slot = x})
            + Cardinality({r \in DOMAIN st.rcv : st.rcv[r].st \in {"got", "run", "span"} /\ st.rcv[r].c = x})

TypeOK ==
  /\ st.scnt >= 0 /\ st.rcnt >= 0
  /\ \A r \in DOMAIN st.rcv : st.rcv[r].st \in {"new", "wait", "got", "run", "span", "over"}
  /\ \A s \in DOMAIN st.snd : st.snd[s].fs \in {"new", "wait", "adm", "cls", "acc", "rx", "end"}
  /\ Range(st.uq) \subseteq Us /\ Range(st.wu) \subseteq Us /\ Range(st.wb) \subseteq Bs

\* Counters are what they count.
CountLd(i) == LET RECURSIVE Sum(_)
                  Sum(S) == IF S = {} THEN 0
                            ELSE LET x == CHOOSE y \in S : TRUE
                                 IN Cardinality({n \in DOMAIN st.ld[x] : st.ld[x][n] = i}) + Sum(S \ {x})
              IN Sum(DOMAIN st.ld)
StrongNow ==
  CountLd(<<"a", 1>>) +
  Cardinality({a \in DOMAIN st.adr : st.adr[a] = "S"}) + Cardinality({k \in DOMAIN st.sk : st.sk[k].h = "S"})
  + Cardinality({s \in DOMAIN st.snd : st.snd[s].own = "S"})
  + Cardinality({s \in DOMAIN st.snd : st.snd[s].pay = "S"})
  + Cardinality({r \in DOMAIN st.rcv : st.rcv[r].own = "S"})
HoldersOf(m) == (IF m \in st.mh THEN 1 ELSE 0) + CountLd(<<"m", m>>) + Cardinality({k \in DOMAIN st.tk : st.tk[k].m = m})
               + Cardinality({r \in DOMAIN st.rcv : st.rcv[r].m = m})
RECURSIVE SumH(_)
SumH(S) == IF S = {} THEN 0 ELSE LET m == CHOOSE x \in S : TRUE IN HoldersOf(m) + SumH(S \ {m})
I_Counts == /\ st.scnt = StrongNow
            /\ st.rcnt = SumH(DOMAIN st.mbs)
            /\ \A m \in DOMAIN st.mbs : st.mbs[m].h = HoldersOf(m) /\ st.mbs[m].h > 0

\* C01/C08: a message is in at most one place; an open result slot belongs to
\* a message that still exists; one that exists has an open slot.
I_OnePlace == \A x \in Us : UPlaces(x) <= 1 /\ (st.snd[x].fs \in {"acc", "rx"} =>
                 (UPlaces(x) = 1) = (st.snd[x].rep = "open"))
I_Placed == \A x \in Us : UPlaces(x) = 1 => st.snd[x].rep = "open"
I_NotLost == \A x \in Us : st.snd[x].rep = "open" =>
                 \/ UPlaces(x) = 1 \/ st.snd[x].fs = "new"
\* C07: nothing is queued while a receiver is idle.
I_IdleMeansEmpty == st.wr # {} =>
   /\ st.uq = <<>> /\ st.wu = <<>> /\ st.scnt > 0
   /\ \A r \in st.wr : st.mbs[st.rcv[r].m].q = <<>> /\ st.rcv[r].st = "wait" /\ st.rcv[r].slot = NoSlot
I_IdleRegistered == \A r \in DOMAIN st.rcv :
   (st.rcv[r].st = "wait" /\ st.rcv[r].slot = NoSlot) => r \in st.wr
\* C05: bounds.
I_CapU == st.cap >= 0 => Len(st.uq) <= st.cap + Cardinality(st.rq)
I_CapB == st.cap >= 0 => \A m \in DOMAIN st.mbs :
             Cardinality({i \in DOMAIN st.mbs[m].q : st.mbs[m].q[i] # SD}) <= st.cap
\* C06: nobody waits while there is room.
I_WaitMeansFull == /\ st.wu # <<>> => UFull(st)
                   /\ st.wb # <<>> => BFull(st)
I_WaitIsWait == /\ \A s \in Us : (st.snd[s].fs = "wait") <=> CountIn(st.wu, s) = 1
                /\ \A s \in Bs : (st.snd[s].fs = "wait") <=> CountIn(st.wb, s) = 1
\* C12/C14: after the last mailbox, nothing and nobody is left behind.
I_Gone == st.rcnt = 0 => /\ st.uq = <<>> /\ st.wu = <<>> /\ st.wb = <<>>
                         /\ \A r \in DOMAIN st.rcv : st.rcv[r].st = "over"
                         /\ \A s \in Us : st.snd[s].rep = "open" => st.snd[s].fs = "new"
                         /\ \A j \in DOMAIN st.jn : st.jn[j].st = "note"
I_Join == \A j \in DOMAIN st.jn : st.jn[j].st = "listen" => st.rcnt > 0
\* C10: idle receivers are told when the last strong handle goes.
I_StrongGone == st.scnt = 0 => st.wr = {}
\* C13: only an accepted, finished message has a value.
I_Val == \A x \in Us : st.snd[x].rep = "val" => UPlaces(x) = 0 /\ st.snd[x].fs # "new"
\* C20: what an unhandled, discarded message owned has been released.
I_PayReleased == \A x \in DOMAIN st.snd : st.snd[x].pay = "S" =>
   IF st.snd[x].k = "u" THEN st.snd[x].rep = "open" ELSE BcHeld(st, x)

\* Nothing belongs to a message that is gone, and nothing belongs to two.
I_Owned == /\ \A x \in DOMAIN st.ld : Exists(st, x)
           /\ \A t \in Stowed(st) : CountLd(<<"s", t>>) = 1 /\ st.snd[t].fs # "end"

\* C17: one handler at a time per actor, except where a handler awaits select/join.
I_Task == \A k \in DOMAIN st.tk :
  LET fr == st.tk[k].fr IN
  /\ \A d \in DOMAIN fr : (fr[d].pc \in {"disp", "ext"}) =
       (LR(k, d) \in DOMAIN st.rcv /\ st.rcv[LR(k, d)].st = "run")
  \* only the innermost frame may be waiting; those around it are in a callback
  /\ \A d \in DOMAIN fr : d < Len(fr) => fr[d].pc \in {"start", "disp", "ext"}
  /\ \A r \in DOMAIN st.rcv : r \div 1000 = k => r % 1000 \in DOMAIN fr

\* C21: a sink has at most one item under way, and takes the next only when
\* that was handled; flush and close end when it was.
I_Sink == \A k \in DOMAIN st.sk :
  LET v == st.sk[k] IN
  /\ v.cur # 0 => v.cur \in DOMAIN st.snd /\ st.snd[v.cur].fs \notin {"end", "rx"} /\ ~v.over /\ ~v.rdy
  /\ \A j \in DOMAIN st.sk : st.sk[j].cur = v.cur => j = k \/ v.cur = 0

\* A message is waiting from the first poll of its send until its handler runs.
I_Span == st.md = 1 => \A s \in DOMAIN st.snd :
  /\ (st.snd[s].fs = "new" => st.snd[s].sp < 0) /\ (st.snd[s].fs \notin {"new", "end"} => st.snd[s].sp >= 0)
  /\ Waits(st, s) => \A r \in DOMAIN st.rcv : st.snd[s].k = "u" /\ st.rcv[r].c = s => st.rcv[r].st = "got"
  /\ (st.snd[s].fs = "wait" => Waits(st, s))
Inv == /\ TypeOK /\ I_Counts /\ I_OnePlace /\ I_Placed /\ I_NotLost /\ I_IdleMeansEmpty /\ I_IdleRegistered
       /\ I_CapU /\ I_CapB /\ I_WaitMeansFull /\ I_WaitIsWait /\ I_Gone /\ I_Join
       /\ I_Task /\ I_Sink /\ I_Span /\ I_StrongGone /\ I_Val /\ I_PayReleased /\ I_Owned

(***************************************************************************)
(* Step properties: [][A]_vars.                                            *)
(***************************************************************************)
Took(x) == \E r \in DOMAIN st'.rcv :
   st'.rcv[r].st = "got" /\ st'.rcv[r].c = x /\
   (r \in DOMAIN st.rcv => st.rcv[r].st # "got")
\* C02: a default-priority message leaves the queue only when no earlier one
\* (that was not put back) is there, and never overtakes a waiting send.
P_Fifo == \A i \in DOMAIN st.uq :
  LET x == st.uq[i] IN
  (Took(x) /\ st.snd[x].p = 0 /\ x \notin st.rq) =>
     \A j \in 1..(i-1) : st.snd[st.uq[j]].p = 0 => st.uq[j] \in st.rq
\* C03: what is taken from a queue is of the highest priority queued for it,
\* except for the one message or broadcast announced while idle.
P_Prio == \A r \in DOMAIN st.rcv :
  (st.rcv[r].st \in {"new"} /\ r \in DOMAIN st'.rcv /\ st'.rcv[r].st = "got"
     /\ (st.uq # <<>> \/ st.mbs[st.rcv[r].m].q # <<>>))
  => Prio(st, st'.rcv[r].c) =
       MaxOf({TopPrio(st, st.uq), TopPrio(st, st.mbs[st.rcv[r].m].q)})
\* C07: a receive that has work to do completes in a single poll.
P_Ready == (last'.op = "rpoll" /\ last'.a \in DOMAIN st.rcv
            /\ (st.uq # <<>> \/ st.mbs[st.rcv[last'.a].m].q # <<>> \/ st.scnt = 0
                \/ st.wu # <<>> \/ st.rcv[last'.a].slot > 0))
           => st'.res = "ready"
\* C10: gone is gone.
P_NoRevive == st.scnt = 0 => st'.scnt = 0
P_GoneIsGone == st.rcnt = 0 => st'.rcnt = 0
\* C11: a stop_all puts a stop before everything else for every mailbox and tells
\* whoever is idle; a stop_self is for nobody else.
Sds(s, m) == CountIn(s.mbs[m].q, SD)
P_Stop ==
  (last'.op = "dpoll" /\ st.rcv[last'.a].c # SD) =>
    /\ (last'.k = "stopall" =>
          /\ \A m \in DOMAIN st.mbs \cap DOMAIN st'.mbs :
               Sds(st', m) = Sds(st, m) + 1 /\ TopPrio(st', st'.mbs[m].q) = SDPrio
          /\ \A r \in st.wr : st'.rcv[r].slot = BcSlot)
    /\ (last'.k # "stopall" => \A m \in DOMAIN st.mbs \cap DOMAIN st'.mbs : Sds(st', m) = Sds(st, m))
    /\ (st'.res = "brk" <=> last'.k = "stop")
\* A stop that is queued is what the mailbox's next receive takes.
P_StopNext ==
  (last'.op = "rpoll" /\ st.rcv[last'.a].st = "new" /\ Sds(st, st.rcv[last'.a].m) > 0) =>
    (st'.res = "ready" /\ st'.rcv[last'.a].c = SD)
\* C12: sends after the end fail at once.
P_Disc == (last'.op = "spoll" /\ st.rcnt = 0 /\ st.snd[last'.a].fs = "new") => st'.res = "disc"
\* C09: a cancelled send is gone, an accepted one is not.
P_Withdraw == last'.op = "sdrop" =>
   (IF st.snd[last'.a].fs \in {"acc", "rx", "adm"}
    THEN st'.uq = st.uq /\ st'.rcv = st.rcv
    ELSE CountIn(st'.uq, last'.a) + CountIn(st'.wu, last'.a) + CountIn(st'.wb, last'.a) = 0)
\* C08: dropping a receive that was given nothing but a message keeps it.
P_Keep == (last'.op = "rdrop" /\ st.rcv[last'.a].st = "wait" /\ st.rcv[last'.a].slot > 0 /\ st'.rcnt > 0)
   => LET x == st.rcv[last'.a].slot IN
      \/ CountIn(st'.uq, x) = 1
      \/ \E r \in DOMAIN st'.rcv : st'.rcv[r].slot = x /\ r # last'.a
\* Everyone whose situation changed is woken.
P_Woken ==
  /\ \A r \in DOMAIN st.rcv \cap DOMAIN st'.rcv :
       (st.rcv[r].slot = NoSlot /\ st'.rcv[r].slot # NoSlot) => WR(r) \in st'.wk
  /\ \A s \in DOMAIN st.snd :
       (st.snd[s].fs = "wait" /\ st'.snd[s].fs \in {"adm", "cls"}) => WS(s) \in st'.wk
  /\ \A s \in DOMAIN st.snd \cap st.rw :
       (st.snd[s].rep = "open" /\ st'.snd[s].rep # "open" /\ st'.snd[s].fs # "end") => WS(s) \in st'.wk
  /\ \A j \in DOMAIN st.jn \cap DOMAIN st'.jn :
       (st.jn[j].w /\ st.jn[j].st = "listen" /\ st'.jn[j].st = "note") => WJ(j) \in st'.wk
\* C17: run calls started first and once, then handles messages, then calls
\* stopped once and handles nothing more; started's failure ends it at once.
In(q, x) == \E i \in DOMAIN q : q[i] = x
Msgs(q) == {i \in DOMAIN q : q[i] >= 100}
P_Run ==
  (last'.op = "kpoll" /\ st.tk[last'.a].kind \in {"run", "spawned"}) =>
    LET k == last'.a  F == st.tk[k].fr[1]  q == st'.pr
        over == k \notin DOMAIN st'.tk
        fresh == F.pc = "start" /\ ~F.ex
    IN /\ In(q, 1) = fresh /\ (fresh => q[1] = 1)
       /\ CountIn(q, 2) <= 1 /\ (F.pc = "stop" => CountIn(q, 2) = 0 /\ Msgs(q) = {})
       /\ \A i \in DOMAIN q : q[i] = 2 => \A j \in DOMAIN q : j > i => q[j] = 4
       /\ (st'.res = "ready" => over /\ (F.pc = "stop" \/ In(q, 2)))
       /\ (st'.res = "fail" => over /\ F.pc = "start" /\ ~In(q, 2))
       /\ (over => st'.res \in {"ready", "fail", "panic"} /\ In(q, 4) /\ \A r \in DOMAIN st'.rcv : r \div 1000 # k)
       /\ (~over => st'.res = "pend")
\* C18: join ends with its future's value only; select ends with the value, or
\* after a message that stopped the actor; and then the mailbox is there again.
P_Sel ==
  (last'.op = "kpoll" /\ st.tk[last'.a].kind \in {"sel", "join"}) =>
    LET k == last'.a  q == st'.pr
    IN /\ (st'.res = "left" => st.tk[k].kind = "sel" /\ (In(q, 3) \/ st.tk[k].fr[1].pc = "ext"))
       /\ (st'.res = "right" => st.tk[k].kind = "sel" /\ (Msgs(q) # {} \/ SD \in Range(st.mbs[st.tk[k].m].q) \/ st.scnt = 0
                                  \/ st.tk[k].fr[1].pc = "disp" \/ st.rcv[1000 * k + 1].slot = SdSlot))
       /\ (st'.res = "join" => st.tk[k].kind = "join" /\ (In(q, 3) \/ st.tk[k].fr[1].pc = "ext"))
       /\ (k \notin DOMAIN st'.tk /\ st'.res # "panic" => st.tk[k].m \in st'.mh)
       /\ (k \notin DOMAIN st'.tk => \A r \in DOMAIN st'.rcv : r \div 1000 # k)
\* C22: whatever span a handler is polled in, it sees its own message's.
P_Span == (st.md # 0 /\ last'.op = "dpoll" /\ st.rcv[last'.a].c # SD) =>
  st'.pr = <<st.snd[st.rcv[last'.a].c].sp>>
P_Sink == (last'.op = "xpoll" /\ st.sk[last'.a].cur # 0) =>
  LET s == st.sk[last'.a].cur IN
  /\ (st'.res = "ok" => st'.snd[s].rep = "val")
  /\ (st'.res \in {"disc", "intr"} => st'.snd[s].rep # "open" /\ st'.snd[s].rep # "val")
  /\ (st'.res = "pend" => st'.snd[s].rep = "open" /\ st'.sk[last'.a].cur = s)
Steps == [][P_Stop /\ P_StopNext /\ P_Sink /\ P_Span /\ P_Run /\ P_Sel /\ P_Fifo /\ P_Prio /\ P_Ready /\ P_NoRevive /\ P_GoneIsGone /\ P_Disc /\ P_Withdraw
            /\ P_Keep /\ P_Woken]_vars
=============================================================================
