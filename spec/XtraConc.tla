------------------------------ MODULE XtraConc ------------------------------
(***************************************************************************)
(* Several threads calling into one channel: the atomic steps of their     *)
(* calls (MicroOps) interleave freely.  Explored exhaustively for small    *)
(* constants: whenever no call is running, the channel must satisfy every  *)
(* invariant that XtraSeq establishes for sequential use.                  *)
(***************************************************************************)
EXTENDS XtraSeq
CONSTANTS Threads,    \* how many threads
          COps,       \* calls that may run at the same time as others
          Rival       \* FALSE: only sequential calls (for comparison)
M == INSTANCE MicroOps

VARIABLES cf          \* configuration of MicroOps; st is its channel state
cvars == <<st, last, cf>>

Uses(e) ==
  CASE e.op \in {"aclone", "adown", "aup"} -> {<<"adr", e.a>>, <<"adr", e.b>>}
    [] e.op = "adrop"                      -> {<<"adr", e.a>>}
    [] e.op = "mbaddr"                     -> {<<"mbs", e.a>>, <<"adr", e.b>>}
    [] e.op = "mclone"                     -> {<<"mbs", e.a>>, <<"mbs", e.b>>}
    [] e.op = "mdrop"                      -> {<<"mbs", e.a>>}
    [] e.op \in {"send", "bcast"}          -> {<<"snd", e.a>>, <<"adr", e.b>>}
    [] e.op \in {"spoll", "sdrop"}         -> {<<"snd", e.a>>}
    [] e.op = "rnew"                       -> {<<"rcv", e.a>>, <<"mbs", e.b>>}
    [] e.op \in {"rpoll", "rdrop", "dpoll"} -> {<<"rcv", e.a>>}
    [] e.op \in {"jnew", "cnew"}           -> {<<"jn", e.a>>, <<"adr", e.b>>}
    [] e.op \in {"jpoll", "jdrop"}         -> {<<"jn", e.a>>}
    [] OTHER                               -> {}
InUse == UNION {Uses(cf.th[t].e) : t \in DOMAIN cf.th}
\* Threads are interchangeable: they enter in order.
NextT == {t \in 1..Threads : t \notin DOMAIN cf.th /\ \A u \in 1..(t-1) : u \in DOMAIN cf.th}

CInit == Init /\ cf = M!Idle(Init0(Cap))
Enter == \E t \in NextT : \E e \in Events :
           /\ e.op \in Ops /\ Can(st, e)
           /\ Uses(e) \cap InUse = {}
           /\ DOMAIN cf.th # {} => (Rival /\ e.op \in COps /\ \A u \in DOMAIN cf.th : cf.th[u].e.op \in COps)
           /\ cf' = M!Begin(cf, t, e)
           /\ last' = e
           /\ UNCHANGED st
Inside == \E t \in DOMAIN cf.th : \E c \in M!Micro(cf, t) :
           cf' = c /\ st' = c.st /\ UNCHANGED last
Leave == \E t \in DOMAIN cf.th :
           /\ M!Finished(cf, t)
           /\ Cardinality(DOMAIN cf.th) = 1 => cf.pool = 0
           /\ cf' = M!Leave(cf, t)
           /\ UNCHANGED <<st, last>>
CNext == Enter \/ Inside \/ Leave
CSpec == CInit /\ [][CNext]_cvars
\* What a call shows does not influence what happens next.
CView == [cf EXCEPT !.th = [t \in DOMAIN @ |-> <<@[t].e, @[t].ts>>]]

Quiet == DOMAIN cf.th = {}
C_Quiet == Quiet => (Inv /\ cf.np = {} /\ cf.pool = 0 /\ cf.lk = 0)
\* Nobody is ever stuck inside a call.
C_Live == Quiet \/ \E t \in DOMAIN cf.th : M!Finished(cf, t) \/ M!Micro(cf, t) # {}
\* Whoever waits inside no call will be woken: what it waits for is recorded.
C_Counts == st.scnt >= 0 /\ st.rcnt >= 0 /\ cf.pool >= 0
(***************************************************************************)
(* No lost wake-up: a future whose situation changed while its task was    *)
(* known is owed a wake-up by the thread that changed it.                  *)
(***************************************************************************)
C_Owed == [][ /\ \A r \in DOMAIN st.rcv \cap DOMAIN st'.rcv :
                   (st.rcv[r].st = "wait" /\ st.rcv[r].slot = NoSlot /\ st'.rcv[r].slot # NoSlot /\ WR(r) \notin cf.np)
                   => \E t \in DOMAIN cf'.th : WR(r) \in cf'.th[t].owe
              /\ \A s \in DOMAIN st.snd \cap DOMAIN st'.snd :
                   (st.snd[s].fs = "wait" /\ st'.snd[s].fs \in {"adm", "cls"} /\ WS(s) \notin cf.np)
                   => \E t \in DOMAIN cf'.th : WS(s) \in cf'.th[t].owe
              /\ \A s \in DOMAIN st.snd \cap DOMAIN st'.snd :
                   (s \in st.rw /\ st.snd[s].rep = "open" /\ st'.snd[s].rep # "open")
                   => \E t \in DOMAIN cf'.th : WS(s) \in cf'.th[t].owe
            ]_cvars
=============================================================================
