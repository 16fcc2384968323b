------------------------------- MODULE Identity -------------------------------
(***************************************************************************)
(* What handles are: which mailbox they lead to, how strong they are, and  *)
(* how they therefore compare, order and hash (address.rs,                 *)
(* message_channel.rs, ptr.rs).                                            *)
(*                                                                         *)
(*   hs   handles: id -> [m: channel, s: strong?, t: S/W/E its type,       *)
(*        c: a message channel?]                                           *)
(*   ms   channels of which the Mailbox is still held                      *)
(*   ord  the channels in the order of their handles (open: wherever the   *)
(*        allocator put them)                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt
CONSTANTS NM, NH, Ops

VARIABLES st, last
vars == <<st, last>>
Init0 == [hs |-> << >>, ms |-> {}, ord |-> <<>>, res |-> "", pr |-> <<>>]

Pos(q, m) == CHOOSE i \in DOMAIN q : q[i] = m
InsertAt(q, i, m) == SubSeq(q, 1, i - 1) \o <<m>> \o SubSeq(q, i, Len(q))
Eq(g, h) == g.m = h.m /\ g.s = h.s
Same(g, h) == g.m = h.m
Num(b) == IF b THEN 1 ELSE 0
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
\* -1, 0 or 1
Cmp(ord, g, h) ==
  IF g.m # h.m THEN Sgn(Pos(ord, g.m) - Pos(ord, h.m)) ELSE Num(g.s) - Num(h.s)
Na == 9   \* there is no such operation

With(s, b, h) == [s EXCEPT !.hs = (b :> h) @@ @, !.res = "ok"]
\* A channel is forgotten when nothing leads to it any more.
Tidy(s) ==
  LET used == s.ms \cup {s.hs[h].m : h \in DOMAIN s.hs}
  IN [s EXCEPT !.ord = SelectSeq(@, LAMBDA m : m \in used)]

\* Comparing a and b: eq both ways, partial_cmp both ways, cmp, same_actor, same hash.
Compare(s, a, b) ==
  LET g == s.hs[a]  h == s.hs[b]
      typed == g.t = h.t
      e == IF g.c /\ ~typed THEN Na ELSE Num(Eq(g, h))
      c == IF g.c THEN Na ELSE Cmp(s.ord, g, h)
      d == IF g.c THEN Na ELSE Cmp(s.ord, h, g)
  IN {[s EXCEPT !.res = "ok", !.pr = <<e, e, c, d, IF g.c \/ ~typed THEN Na ELSE c, Num(Same(g, h)), k>>]
      : k \in IF Eq(g, h) THEN {1} ELSE {0, 1}}

Upgrades(s, m) == \E h \in DOMAIN s.hs : s.hs[h].m = m /\ s.hs[h].s

Call(s, e) ==
  LET h == IF e.a \in DOMAIN s.hs THEN s.hs[e.a] ELSE [m |-> 0, s |-> FALSE, t |-> "-", c |-> FALSE] IN
  CASE e.op = "inew"    -> {With([s EXCEPT !.ms = @ \cup {e.a}, !.ord = InsertAt(@, i, e.a)], e.b,
                                 [m |-> e.a, s |-> TRUE, t |-> "S", c |-> FALSE]) : i \in 1..(Len(s.ord) + 1)}
    [] e.op = "iclone"  -> {With(s, e.b, h)}
    [] e.op = "ieither" -> {With(s, e.b, [h EXCEPT !.t = "E"])}
    [] e.op = "idown"   -> {With(s, e.b, [h EXCEPT !.t = "W", !.s = FALSE])}
    [] e.op = "iup"     -> IF Upgrades(s, h.m) THEN {[With(s, e.b, [h EXCEPT !.t = "S", !.s = TRUE]) EXCEPT !.res = "some"]}
                           ELSE {[s EXCEPT !.res = "none"]}
    [] e.op = "ichan"   -> {With(s, e.b, [h EXCEPT !.c = TRUE])}
    [] e.op = "imbaddr" -> {With(s, e.b, [m |-> e.a, s |-> FALSE, t |-> "W", c |-> FALSE])}
    [] e.op = "idrop"   -> {Tidy([s EXCEPT !.hs = [x \in DOMAIN @ \ {e.a} |-> @[x]], !.res = "ok"])}
    [] e.op = "imdrop"  -> {Tidy([s EXCEPT !.ms = @ \ {e.a}, !.res = "ok"])}
    [] e.op = "icmp"    -> Compare(s, e.a, e.b)
Can(s, e) ==
  LET has == e.a \in DOMAIN s.hs IN
  CASE e.op = "inew" -> e.a \notin {s.ord[i] : i \in DOMAIN s.ord}
    [] e.op \in {"iclone", "ieither", "idrop"} -> has
    [] e.op = "idown" -> has /\ s.hs[e.a].t # "W"
    [] e.op = "iup" -> has /\ s.hs[e.a].t = "W" /\ ~s.hs[e.a].c
    [] e.op = "ichan" -> has /\ ~s.hs[e.a].c
    [] e.op \in {"imbaddr", "imdrop"} -> e.a \in s.ms
    [] e.op = "icmp" -> has /\ e.b \in DOMAIN s.hs /\ s.hs[e.a].c = s.hs[e.b].c
Fresh(s) == [s EXCEPT !.res = "", !.pr = <<>>]

Ev(op, a, b) == [op |-> op, a |-> a, b |-> b, x |-> 0, k |-> "-"]
FreshH == {i \in 1..NH : i \notin DOMAIN st.hs /\ \A j \in 1..(i-1) : j \in DOMAIN st.hs}
FreshM == {i \in 1..NM : i \notin {st.ord[j] : j \in DOMAIN st.ord} /\ \A j \in 1..(i-1) : j \in {st.ord[n] : n \in DOMAIN st.ord}}
Events ==
  {Ev("inew", m, b) : m \in FreshM, b \in FreshH}
  \cup {Ev(op, a, b) : op \in {"iclone", "ieither", "idown", "iup", "ichan"}, a \in DOMAIN st.hs, b \in FreshH}
  \cup {Ev("imbaddr", m, b) : m \in st.ms, b \in FreshH}
  \cup {Ev("idrop", a, 0) : a \in DOMAIN st.hs}
  \cup {Ev("imdrop", m, 0) : m \in st.ms}
  \cup {Ev("icmp", a, b) : a \in DOMAIN st.hs, b \in DOMAIN st.hs}
Init == st = Init0 /\ last = Ev("init", 0, 0)
Next == \E e \in Events : e.op \in Ops /\ Can(st, e) /\ \E s \in Call(Fresh(st), e) : st' = s /\ last' = e
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The laws.                                                               *)
(***************************************************************************)
H == {st.hs[h] : h \in DOMAIN st.hs}
C(g, h) == Cmp(st.ord, g, h)
I_Typed == \A h \in H : (h.t = "S" => h.s) /\ (h.t = "W" => ~h.s)
I_Equivalence == \A f, g, h \in H : Eq(f, f) /\ (Eq(f, g) => Eq(g, f)) /\ (Eq(f, g) /\ Eq(g, h) => Eq(f, h))
I_Total == \A f, g, h \in H : /\ C(f, g) = -C(g, f)
                              /\ (C(f, g) = 0) = Eq(f, g)
                              /\ (C(f, g) <= 0 /\ C(g, h) <= 0 => C(f, h) <= 0)
I_Strong == \A f, g \in H : f.m = g.m /\ f.s /\ ~g.s => C(f, g) = 1
I_Ord == /\ \A i, j \in DOMAIN st.ord : st.ord[i] = st.ord[j] => i = j
         /\ \A h \in H : \E i \in DOMAIN st.ord : st.ord[i] = h.m
Inv == I_Typed /\ I_Equivalence /\ I_Total /\ I_Strong /\ I_Ord
\* Comparing changes nothing, and what a handle leads to never changes.
Steps == [][\A h \in DOMAIN st.hs \cap DOMAIN st'.hs : st'.hs[h] = st.hs[h]]_vars

View == Fresh(st)
Name(s) == ToString(<<TLCFP(Fresh(s)), TLCFP(<<Fresh(s), 1>>)>>)
GraphOut ==
  PrintT("G" \o Name(st) \o "|" \o Name(st') \o "|" \o
         ToString(<<last'.op, last'.a, last'.b, last'.x, last'.k>>) \o "|" \o
         ToString(<<st'.res, 0, {}, st'.pr>>))
InitOut == TLCGet("level") > 1 \/ PrintT("I" \o Name(st))
=============================================================================
