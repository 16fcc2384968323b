-------------------------------- MODULE Blame --------------------------------
(***************************************************************************)
(* Which properties is a call evidence against that did not show what the  *)
(* specification allows?  Common to TraceSeq and TraceConc.                *)
(***************************************************************************)
EXTENDS SpanOps
Fits(s, o) == s.res = o.res /\ s.hd = o.hd /\ s.wk \subseteq o.wk /\ s.pr = o.pr
After(SS, e) == UNION {PCall(s, e) : s \in {q \in SS : PCan(q, e)}}

(***************************************************************************)
(* Which properties does the failing event speak about?                    *)
(***************************************************************************)
Kind(s, x) == IF x \in DOMAIN s.snd THEN s.snd[x].k ELSE "?"
Sent(w) == IF w >= 10000 THEN w - 10000 ELSE w - 100
Tok(w) == CASE w >= 10000 -> "send" [] w >= 400 -> "loop" [] w >= 300 -> "join" [] w >= 200 -> "recv" [] OTHER -> "send"
Default(s, x) == x \in DOMAIN s.snd /\ s.snd[x].k = "u" /\ s.snd[x].p = 0
\* SS: states before, N: states the specification allows after e, o: what was seen.
BlameWake(SS, N, e, o) ==
  UNION {LET miss == {w \in n.wk : w \notin o.wk} IN
    UNION { {"C19"}, IF e.op = "unload" \/ \E q \in SS : q.ld # n.ld THEN {"C20"} ELSE {},
      IF \E w \in miss : Tok(w) = "recv" THEN {"C07"}
         \cup (IF e.op \in {"adrop", "sdrop", "unload"} THEN {"C10"} ELSE {})
         \cup (IF e.op = "spoll" /\ Kind(n, e.a) = "b" THEN {"C04"} ELSE {})
         \cup (IF e.op \in {"dpoll", "kpoll"} THEN {"C11"} ELSE {})
         \cup (IF e.op = "rdrop" THEN {"C08", "C10"} ELSE {}) ELSE {},
      IF \E w \in miss : Tok(w) = "send" THEN
           UNION {LET s == Sent(w) IN
                   (IF s \in InSinks(n) THEN {"C21"} ELSE {}) \cup
                   CASE n.snd[s].fs = "cls" -> {"C12"}
                     [] n.snd[s].fs = "adm" -> {"C06"} \cup
                          (IF Default(n, s) /\ \E v \in o.wk \ n.wk : Tok(v) = "send" /\ Default(n, Sent(v))
                                                                 /\ n.snd[Sent(v)].fs = "wait"
                           THEN {"C02"} ELSE {})   \* another one was admitted first
                     [] n.snd[s].rep = "val" -> {"C13"}
                     [] OTHER -> {"C12", "C13"}
                   : w \in {y \in miss : Tok(y) = "send"}} ELSE {},
      IF \E w \in miss : Tok(w) = "join" THEN {"C14", "C12"} ELSE {} }
    : n \in N}

Differ(N, o, i) == \A n \in N : n.pr = <<>> \/ Len(o.pr) # Len(n.pr) \/ n.pr[i] # o.pr[i]
BlameProbe(N, e, o) ==
  IF e.op \in {"dpoll", "dspan", "waits"} THEN {"C22"} ELSE
  IF e.op = "unload" THEN {"C20"} ELSE
  IF e.op = "end" THEN {"C20", "C01", "C12"}
  ELSE {"C15"}
    \cup (IF Differ(N, o, 1) THEN {"C05", "C06", "C09"} ELSE {})
    \cup (IF Differ(N, o, 1) /\ \E n \in N : n.rq # {} THEN {"C08"} ELSE {})
    \cup (IF Differ(N, o, 2) THEN {"C10", "C12"} ELSE {})
    \cup (IF Differ(N, o, 3) THEN {"C10", "C23"} ELSE {})
    \cup (IF Differ(N, o, 4) THEN {"C10", "C12"} ELSE {})
    \cup (IF Differ(N, o, 6) THEN {"C20", "C09", "C01"} ELSE {})

\* A different handler ran than any that could have, or none, or one too many.
BlameHandled(SS, N, e, o) ==
  LET want == {n.hd : n \in N}
      s == CHOOSE q \in SS : TRUE
      ps == {IF h = 0 THEN SDPrio ELSE IF h \in DOMAIN s.snd THEN s.snd[h].p ELSE -1 : h \in want \cup {o.hd}}
      ks == {Kind(s, h) : h \in want \cup {o.hd}}
  IN {"C01"} \cup (IF "b" \in ks THEN {"C04"} ELSE {})
     \cup (IF Cardinality(ps) > 1 THEN {"C03"} ELSE {})
     \cup (IF 0 \in ps /\ "u" \in ks THEN {"C02"} ELSE {})
     \cup (IF 0 \in want \cup {o.hd} THEN {"C10", "C11"} ELSE {})
     \cup (IF \E q \in SS : o.hd \in DOMAIN q.snd /\ q.snd[o.hd].fs = "end" THEN {"C09"} ELSE {})
     \cup (IF \E q \in SS : q.rq # {} THEN {"C08"} ELSE {})
     \cup (IF \E q \in SS : \E r \in DOMAIN q.rcv : q.rcv[r].st = "wait" THEN {"C07"} ELSE {})

BlameRes(SS, N, e, o) ==
  LET want == {n.res : n \in N}
      b == \E q \in SS : Kind(q, e.a) = "b"
  IN CASE e.op = "spoll" ->
            (IF "disc" \in want \cup {o.res} THEN {"C12", "C10"} ELSE {})
            \cup (IF {"val", "intr"} \cap (want \cup {o.res}) # {} THEN {"C13"} ELSE {})
            \cup (IF "intr" \in want \cup {o.res} THEN {"C12", "C01", "C09"} ELSE {})
            \cup (IF {"pend", "ok"} \cap (want \cup {o.res}) # {} /\ ~({"val", "intr"} \cap (want \cup {o.res}) # {})
                  THEN {"C05", "C06"} \cup (IF b THEN {"C04"} ELSE {"C01"}) ELSE {})
            \cup (IF o.res = "ok" /\ \E q \in SS : Default(q, e.a) /\ \E i \in DOMAIN q.wu : q.wu[i] # e.a /\ Default(q, q.wu[i])
                  THEN {"C02"} ELSE {})   \* it overtakes one that waits
            \cup (IF o.res = "intr" /\ \E q \in SS : e.a \in q.rq THEN {"C08"} ELSE {})
       [] e.op \in SinkOp -> {"C21"}
            \cup (IF {"disc", "intr"} \cap (want \cup {o.res}) # {} THEN {"C12"} ELSE {})
            \cup (IF {"ok", "intr"} \cap (want \cup {o.res}) # {} THEN {"C13"} ELSE {})
       [] e.op = "rpoll" ->
            {"C07"}
            \cup (IF \E q \in SS : q.uq # <<>> THEN {"C01", "C05"} ELSE {})
            \cup (IF \E q \in SS : q.rq # {} THEN {"C08"} ELSE {})
            \cup (IF \E q \in SS : q.wu # <<>> THEN {"C06"} ELSE {})
            \cup (IF \E q \in SS : q.scnt = 0 THEN {"C10"} ELSE {})
            \cup (IF \E q \in SS : e.a \in DOMAIN q.rcv /\ q.mbs[q.rcv[e.a].m].q # <<>>
                  THEN {"C04"} \cup (IF \E q \in SS : SD \in Range(q.mbs[q.rcv[e.a].m].q) THEN {"C11"} ELSE {}) ELSE {})
            \cup (IF \E q \in SS : e.a \in DOMAIN q.rcv /\ q.rcv[e.a].slot > 0 THEN {"C01"} ELSE {})
            \cup (IF o.res = "ready" THEN {"C01", "C04", "C10", "C11", "C08", "C09"} ELSE {})
       [] e.op = "dpoll" -> {"C11", "C10"} \cup (IF e.k = "panic" THEN {"C13"} ELSE {})
       [] e.op = "aup"   -> {"C10"}
       [] e.op = "load"  -> {"C20"}
       [] e.op = "jpoll" -> {"C14"} \cup (IF {"ready", "none"} \cap want # {} THEN {"C12"} ELSE {})
       [] OTHER -> {}

\* A task did something else than it could have: which of the loops, and was
\* it only about which message it took?
Loops(SS, e) == UNION {{q.tk[e.a].fr[i].f : i \in DOMAIN q.tk[e.a].fr} : q \in {s \in SS : e.a \in DOMAIN s.tk}}
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN {} ELSE {n % 8} \cup Digits(n \div 8)
Spawned(SS, e) ==
  IF e.k \in Runtimes \/ \E q \in SS : e.a \in DOMAIN q.tk /\ q.tk[e.a].kind = "spawned" THEN {"C24"} ELSE {}
BlameLoop(SS, e) ==
  LET L == Loops(SS, e) IN
  Spawned(SS, e) \cup
  (IF L \cap {"run", "yld"} # {} \/ e.op = "knew" THEN {"C17"} ELSE {})
  \cup (IF L \cap {"sel", "join"} # {} \/ {5, 6} \cap Digits(e.b) # {} THEN {"C18"} ELSE {})
Shape(pr) == [i \in DOMAIN pr |-> IF pr[i] >= 200 THEN 200 ELSE IF pr[i] >= 100 THEN 100 ELSE pr[i]]
Handled(SS, pr) == {pr[i] - 100 : i \in {j \in DOMAIN pr : pr[j] > 100 /\ pr[j] < 200}}
BlameTask(SS, N, e, o) ==
  LET want == {n.res : n \in N}
      alike == {n \in N : n.res = o.res /\ Shape(n.pr) = Shape(o.pr)}
  IN IF alike # {}
     THEN {"C01", "C02", "C03"}
          \cup Spawned(SS, e)
          \cup (IF \E x \in Handled(SS, o.pr) : \E q \in SS : x \in DOMAIN q.snd /\ q.snd[x].k = "b" THEN {"C04"} ELSE {})
     ELSE BlameLoop(SS, e)
          \cup (IF {2, 3, 7} \cap Digits(e.b) # {} \/ \E q \in SS : \E m \in DOMAIN q.mbs : SD \in Range(q.mbs[m].q)
                THEN {"C11"} ELSE {})
          \cup (IF \E q \in SS : q.scnt = 0 THEN {"C10"} ELSE {})
          \cup (IF e.op = "kpoll" /\ Len(o.pr) < MaxOf({Len(n.pr) : n \in N}) THEN {"C07", "C01"} ELSE {})

\* The call deadlocked ("hang") or panicked ("boom").
BlameDead(SS, e, o) ==
  {"C19", "C20"} \cup
  (CASE e.op \in {"spoll", "send", "bcast"} -> {"C05", "C06", "C12", "C01", "C04"}
     [] e.op \in {"rpoll", "rnew"} -> {"C01", "C07", "C04", "C10"}
     [] e.op = "rdrop" -> {"C08", "C12"}
     [] e.op = "sdrop" -> {"C09"}
     [] e.op = "dpoll" -> {"C11", "C12", "C13", "C01"}
     [] e.op \in {"mdrop"} -> {"C12", "C06"}
     [] e.op = "mclone" -> {"C04"}
     [] e.op \in {"adrop", "aup", "aclone", "adown"} -> {"C10", "C23"}
     [] e.op \in {"jnew", "cnew", "jpoll", "jdrop"} -> {"C14"}
     [] e.op = "probe" -> {"C15"}
     [] e.op \in LoopOp -> BlameLoop(SS, e)
     [] e.op \in SinkOp -> {"C21"}
     [] e.op \in {"dspan", "waits"} -> {"C22"}
     [] OTHER -> {})

\* SS: what the state may have been, N: what the call may have led to.
BlameOf(SS, N, e, o) ==
  IF N = {} THEN {"TOOL"}
  \* the harness's use of the address before the first event (Bag::used) failed
  ELSE IF o.res = "unfit:order" THEN {"C02"}
  ELSE IF o.res = "unfit:len" THEN {"C15"}
  ELSE IF o.res = "unfit" THEN {"C01", "C04", "C05", "C07"}
  ELSE IF o.res \in {"hang", "boom"} THEN BlameDead(SS, e, o)
  ELSE IF e.op \in LoopOp /\ \A n \in N : n.res # o.res \/ n.pr # o.pr THEN BlameTask(SS, N, e, o)
  ELSE IF \A n \in N : n.res # o.res THEN
         BlameRes(SS, N, e, o) \cup (IF \A n \in N : n.hd # o.hd THEN BlameHandled(SS, N, e, o) ELSE {})
  ELSE LET N1 == {n \in N : n.res = o.res} IN
       IF \A n \in N1 : n.hd # o.hd THEN
          (IF e.op = "jpoll" THEN {"C14"} ELSE BlameHandled(SS, N1, e, o))
       ELSE LET N2 == {n \in N1 : n.hd = o.hd} IN
            IF \A n \in N2 : ~(n.wk \subseteq o.wk) THEN BlameWake(SS, N2, e, o)
            ELSE IF e.op \in LoopOp THEN BlameTask(SS, N, e, o) \cup BlameWake(SS, N2, e, o)
            ELSE BlameProbe({n \in N2 : n.wk \subseteq o.wk}, e, o)

Blame(SS, e, o) == BlameOf(SS, After(SS, e), e, o)

Want(N) == {[res |-> n.res, hd |-> n.hd, wk |-> n.wk, pr |-> n.pr] : n \in N}
=============================================================================
