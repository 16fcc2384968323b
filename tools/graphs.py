"""Small exhaustive configurations of XtraSeq: checked by TLC, and their state
graphs walked through the real code."""
UNI = "send spoll sdrop rnew rpoll rdrop dpoll"
G = {}


def g(name, cap, na, nm, ns, nr, nj, prios, sk, bk, acts, ops, chan=0, either=0, ext=6, nk=0, kinds=(), scripts=(), nx=0, md=0, spans=(0,), nl=0):
    G[name] = dict(cap=cap, na=na, nm=nm, ns=ns, nr=nr, nj=nj, prios=prios, sk=sk, bk=bk,
                   acts=acts, ops=ops.split(), chan=chan, either=either, ext=ext, nk=nk, nx=nx, nl=nl, md=md, spans=spans, kinds=kinds,
                   scripts=[int(str(x)[::-1], 8) for x in scripts])


# single-recipient messages: bounds 1, 0, unbounded
g("uni1", 1, 1, 1, 2, 2, 0, [0, 1], ["-"], [], ["pend", "ret"], UNI + " adrop probe", chan=1, either=1)
g("uni0", 0, 1, 1, 2, 2, 0, [0, 1], ["-"], [], ["ret"], UNI + " adrop mdrop probe", chan=1, either=1)
g("unix", -1, 1, 1, 2, 2, 0, [0, 1], ["-", "d"], [], ["pend", "ret"], UNI + " probe", chan=1, either=1)
# order within the queue: four messages, one actor
g("fifo2", 2, 1, 1, 4, 1, 0, [0, 1], ["-"], [], ["ret"], "send spoll rnew rpoll dpoll", chan=1, either=1)
g("fifox", -1, 1, 1, 4, 1, 0, [0, 1], ["-"], [], ["ret"], "send spoll rnew rpoll dpoll", chan=1, either=1)
g("wait1", 1, 1, 1, 4, 1, 0, [0, 1], ["-"], [], ["ret"], "send spoll sdrop rnew rpoll dpoll", chan=1, either=1)
# broadcasts
g("bc1", 1, 1, 2, 2, 2, 0, [0], [], ["-"], ["ret"], "bcast spoll sdrop rnew rpoll rdrop dpoll mclone mdrop probe", either=1)
g("bc2", 2, 1, 2, 3, 1, 0, [0, 1], [], ["-"], ["ret"], "bcast spoll rnew rpoll dpoll mclone mdrop", either=1)
# both kinds
g("mix1", 1, 1, 2, 2, 2, 0, [0, 1], ["-"], ["-"], ["ret"], "send bcast spoll sdrop rnew rpoll rdrop dpoll mclone", either=1)
g("mixx", -1, 1, 1, 3, 1, 0, [0, 1], ["-"], ["-"], ["ret"], "send bcast spoll rnew rpoll rdrop dpoll", either=1)
# lifetimes and handles
g("life", -1, 3, 1, 1, 1, 0, [0], ["-"], [], ["ret"], UNI + " aclone adown aup mbaddr adrop mdrop probe")
g("join", 1, 2, 2, 1, 1, 2, [0], ["-"], [], ["ret"], "send spoll rnew rpoll dpoll mclone mdrop adown adrop jnew cnew jpoll jdrop", either=1)
# stopping
g("stop", 1, 1, 2, 2, 2, 0, [0], ["-"], [], ["ret", "stop", "stopall", "panic"],
  "send spoll rnew rpoll rdrop dpoll mclone mdrop adrop")
# disconnection
g("disc", 1, 2, 2, 2, 1, 1, [0], ["-", "d"], [], ["pend", "ret", "panic"],
  "send spoll sdrop rnew rpoll rdrop dpoll mdrop jnew jpoll probe")
# messages that own a strong address
g("pay1", 1, 1, 1, 2, 1, 0, [0], ["s", "ds"], ["s"], ["pend", "ret"],
  "send bcast spoll sdrop rnew rpoll rdrop dpoll mdrop adrop probe")
g("pay2", 1, 1, 1, 2, 1, 0, [0], ["-", "s"], ["-", "s"], ["ret"],
  "send bcast spoll sdrop rnew rpoll rdrop dpoll mdrop adrop")
# messages that own addresses, mailboxes and sends
g("own1", 1, 2, 1, 2, 1, 0, [0], ["-"], [], ["ret"], "send spoll sdrop rnew rpoll rdrop dpoll mdrop adrop load unload", nl=2)
g("own2", 1, 1, 2, 2, 1, 0, [0], [], ["-"], ["ret"], "bcast spoll sdrop rnew rpoll rdrop dpoll mclone mdrop adrop load unload", nl=2)
# event loops; a script is written as the acts in order
g("run1", 1, 2, 1, 2, 0, 0, [0], ["-"], [], [], "send spoll sdrop adrop mbaddr knew kpoll kdrop probe", nk=1,
  kinds=["run", "yld"], scripts=[0, 1, 2, 3, 4, 11, 12, 13, 14, "10", "71", "111", "121", "01"])
g("run2", 1, 1, 2, 2, 0, 0, [0], ["-"], ["-"], [], "send bcast spoll mclone knew kpoll kdrop", nk=2, kinds=["run"],
  scripts=[0, 1, 11, 12, 13])
g("run0", 0, 1, 1, 2, 0, 1, [0], ["-", "d"], [], [], "send spoll sdrop knew kpoll kdrop adrop jnew jpoll mdrop", nk=1,
  kinds=["run"], scripts=[0, 1, 2, 4, 11, 12, 14])
g("spawn1", -1, 2, 1, 2, 0, 0, [0], ["-"], [], [], "send spoll sdrop adown adrop knew kpoll probe", nk=1,
  kinds=["tokio", "smol", "astd"], scripts=[0, 1, 2, 4, 11, 12, "10", "71", "111", "121", "15", "1501"])
g("spawn2", 1, 1, 2, 2, 0, 1, [0], ["-"], ["-"], [], "send bcast spoll mclone mdrop jnew jpoll knew kpoll", nk=1,
  kinds=["tokio", "smol", "astd"], scripts=[0, 1, 11, 12, 13])
g("nest1", -1, 1, 1, 2, 0, 0, [0], ["-"], [], [], "send spoll knew kpoll kdrop adrop", nk=1, kinds=["run"],
  scripts=[1, 0, 5, 6, "15", "150", "1501", "151", "16", "160", "15012", "1511", "16012", "50", "6021", "5505", "56021"])
g("sel1", 1, 1, 1, 2, 0, 0, [0], ["-"], ["-"], [], "send bcast spoll adrop knew kpoll kdrop probe", nk=1,
  kinds=["sel", "join"],
  scripts=[0, 1, 4, "01", "02", "04", "001", "03", "07", "011", "05", "06", "050", "06021"])
g("sel0", 0, 1, 1, 2, 1, 0, [0, 1], ["-"], [], [], "send spoll sdrop knew kpoll kdrop rnew rpoll rdrop", nk=1,
  kinds=["sel", "join"], scripts=[0, 1, "01", "02", "001"])
# sinks
g("snk1", 1, 2, 1, 2, 1, 0, [0], ["-"], [], ["pend", "ret", "panic"],
  "xnew xstart xpoll xdrop rnew rpoll rdrop dpoll adown adrop mdrop probe", nx=1, either=1)
g("snk0", 0, 1, 1, 2, 1, 0, [0], ["-"], [], ["ret", "panic"], "xnew xstart xpoll xdrop rnew rpoll dpoll mdrop send spoll mbaddr",
  nx=1, either=1)
g("snk2", 1, 2, 1, 2, 1, 0, [0], ["-"], [], ["ret"], "xnew xstart xpoll xdrop rnew rpoll dpoll aclone", nx=2)
# tracing spans
g("span1", 1, 1, 1, 2, 1, 0, [0], ["-"], [], ["pend", "ret", "panic"], UNI + " mdrop waits dspan", chan=1, either=1,
  md=1, spans=[0, 1])
g("spanx", -1, 1, 1, 2, 2, 0, [0], ["d"], [], ["ret"], UNI + " waits", chan=1, either=1, md=1, spans=[1, 2])
g("spanb", 1, 1, 2, 2, 2, 0, [0], [], ["-"], ["pend", "ret"], "bcast spoll sdrop rnew rpoll rdrop dpoll mclone waits dspan", either=1,
  md=1, spans=[1, 2])
g("spani", 1, 1, 1, 2, 1, 0, [0], ["-"], ["-"], ["pend", "ret"], "send bcast spoll rnew rpoll rdrop dpoll dspan", either=1,
  md=2, spans=[1, 2])
g("spank", -1, 1, 1, 2, 0, 0, [0], ["-"], [], [], "send spoll knew kpoll waits", nk=1, kinds=["run", "sel"], md=1, spans=[1, 2],
  scripts=["1", "11", "10", "15", "150", "1501", "1511", "01", "16", "160", "100"])
# what handles are equal to
G["ident"] = dict(module="Identity", cap=-1, chan=1, either=1, ext=10, raw="""NM=2 NH=3
Ops={"inew","iclone","ieither","idown","iup","ichan","imbaddr","idrop","imdrop","icmp"}""")


def cfg(c, export=False):
    s = lambda v: "{" + ", ".join('"%s"' % x for x in v) + "}"
    n = lambda v: "{" + ", ".join(map(str, v)) + "}"
    raw = c.get("raw")
    out = "ACTION_CONSTRAINT GraphOut\nCONSTRAINT InitOut\n" if export else ""
    if raw:
        return f"SPECIFICATION Spec\n{out}VIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\nPROPERTY Steps\nCONSTANTS {raw}\n"
    return f"""SPECIFICATION Spec
{out}VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Inv
PROPERTY Steps
CONSTANTS Cap{'=%d' % c['cap'] if c['cap'] >= 0 else '<-NoCap'} NA={c['na']} NM={c['nm']} NS={c['ns']} NR={c['nr']} NJ={c['nj']}
Prios={n(c['prios'])} SKinds={s(c['sk'])} BKinds={s(c['bk'])} Acts={s(c['acts'])}
NX={c['nx']} NL={c['nl']} Md={c['md']} Spans={n(c['spans'])} NK={c['nk']} Kinds={s(c['kinds'])} Scripts={n(c['scripts'])}
Ops={s(c['ops'])}
"""
