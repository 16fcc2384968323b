"""What each property's check explores: state graphs walked through the code,
and profiles of random traces recorded from it."""
import extra

BASE = dict(send=10, bcast=5, spoll=12, sdrop=3, rnew=8, rpoll=10, rdrop=2, rcancel=1, dpoll=12, aclone=1,
            adown=1, aup=1, adrop=1, mclone=1, mdrop=1, jnew=1, cnew=1, jpoll=2, jdrop=1, probe=3)
ALL = ["-", "d", "s", "ds"]
ACTS = dict(pend=2, ret=10, stop=1, stopall=1, panic=1)


def prof(name, caps="-1,0,1,2,3", prios="0,1,2", ops=None, sk=ALL, bk=("-", "s"), acts=ACTS,
         lim="5,4,10,4,3", chan=1, either=1, ln=60, eager=60, follow=40, probe=10, kinds=(), md=0, **kw):
    w = dict(BASE if ops is None else ops)
    w.update(kw)
    j = lambda d: ",".join("%s:%d" % x for x in d.items() if x[1] > 0)
    return "|".join([name, caps, prios, j(w), ",".join(sk), ",".join(bk), j(acts), lim, str(chan), str(either),
                     str(ln), str(eager), str(follow), str(probe), ",".join(kinds)] + ([str(md)] if md else []))


NOADR = dict(adrop=0, mdrop=0)
RET = dict(pend=1, ret=12)
base = prof("base")
prios = prof("prios", prios="0,0,1,2,3,4,5", caps="-1,1,2,3,5", lim="4,3,14,3,1", **NOADR)
fifo = prof("fifo", prios="0", caps="-1,1,2,3,4,6", bcast=0, lim="4,2,20,2,1", acts=RET, send=20, spoll=20, rnew=5, ln=90, ops=dict(BASE, probe=0), probe=0, sk=["-", "d"], **NOADR)
fifo2 = prof("fifo2", prios="0,0,0,1", caps="-1,1,2,4", bcast=1, lim="4,2,20,3,1", acts=RET, send=20, spoll=20, rnew=5, ln=90, ops=dict(BASE, probe=0), probe=0, sk=["-", "d"], **NOADR)
deep = prof("deep", prios="0,1", caps="-1", bcast=4, lim="3,2,40,2,1", acts=RET, send=30, spoll=30, rnew=3, ln=140, eager=95, **NOADR)
# long histories, many messages queued, larger capacities
long_ = prof("long", prios="0,0,0,0,1", caps="-1,9,40,300", bcast=0, lim="3,2,80,2,1", acts=RET, send=26, spoll=30, rnew=4, ln=900, eager=95, probe=2,
             ops=dict(BASE, probe=0, sdrop=0), sk=["-"], **NOADR)
longb = prof("longb", prios="0,0,0,1", caps="-1,9,17,300", bcast=16, lim="3,3,40,1,1", acts=RET, send=6, spoll=26, rnew=12, mclone=2, ln=500, eager=95, probe=2,
             ops=dict(BASE, probe=0, sdrop=0), sk=["-"], bk=["-"], **NOADR)
cancel = prof("cancel", rcancel=12, rnew=16, rpoll=12, eager=80, lim="4,3,10,6,1", caps="-1,0,1,2", adrop=0)
bcast = prof("bcast", bcast=14, send=4, rnew=12, rcancel=5, mclone=4, mdrop=3, lim="4,6,12,6,1", caps="-1,0,1,2,3", prios="0,0,1,2", adrop=0)
bcast2 = prof("bcast2", bcast=18, send=1, rnew=9, rcancel=2, mclone=3, mdrop=3, lim="3,5,16,5,1", caps="1,2", prios="0,1", adrop=0)
wait = prof("wait", caps="0,1,1,2,3", lim="4,3,20,3,1", send=18, bcast=9, spoll=20, sdrop=5, rnew=5, eager=90, **NOADR)
wait0 = prof("wait0", caps="0", lim="3,3,12,4,1", send=14, bcast=2, spoll=14, sdrop=4, rnew=9, rcancel=4, prios="0,0,1,5")
idle = prof("idle", rnew=16, rpoll=16, send=6, bcast=4, eager=85, follow=60, lim="4,4,8,7,1")
scancel = prof("scancel", sdrop=12, caps="-1,0,1,2", lim="4,2,14,3,1", eager=70, **NOADR)
life = prof("life", aclone=6, adown=5, aup=8, adrop=10, mdrop=2, lim="6,3,6,5,2", mbaddr=2, probe=6)
life2 = prof("life2", aclone=2, adown=3, aup=6, adrop=8, send=12, bcast=3, lim="3,2,8,5,2", caps="-1,1,0", ln=40, mdrop=0)
stop = prof("stop", acts=dict(pend=2, ret=5, stop=5, stopall=6, panic=1), mclone=4, lim="4,5,8,7,1", rnew=12, adrop=1)
stop1 = prof("stop1", acts=dict(pend=1, ret=3, stop=3, stopall=8), mclone=3, lim="3,4,10,6,1", caps="0,1,2", prios="0,5,5", rnew=12, send=14, adrop=0, ln=50)
disc = prof("disc", mdrop=7, mclone=1, rdrop=6, lim="5,2,12,3,3", caps="-1,0,1,2", jnew=2, ln=45, acts=dict(pend=3, ret=6, panic=3))
disc2 = prof("disc2", mdrop=4, mclone=2, bcast=10, lim="5,3,12,3,2", caps="0,1,2", ln=45, acts=dict(pend=3, ret=6, panic=3))
result = prof("result", acts=dict(pend=6, ret=8, panic=4, stop=1, stopall=1), bcast=1, rdrop=5, follow=70, lim="4,3,10,5,1")
join = prof("join", jnew=8, cnew=8, jpoll=14, jdrop=3, mdrop=5, mclone=2, adown=3, lim="4,3,5,3,7", rdrop=3)
probes = prof("probes", probe=70, ln=50, mclone=3, mdrop=3)
probes2 = prof("probes2", ops=dict(BASE, probe=6, bcast=10, mclone=4, mdrop=4, rcancel=4), caps="-1,1,2,3", ln=60)
pay = prof("pay", sk=["s", "ds", "-"], bk=["s", "s", "-"], mdrop=5, sdrop=6, adrop=4, rdrop=5, lim="4,3,10,4,2", ln=45, bcast=8)
pay0 = prof("pay0", sk=["s"], bk=["s"], mdrop=5, sdrop=5, adrop=7, rdrop=3, rcancel=4, lim="2,2,8,3,1", ln=35, bcast=6, caps="-1,0,1", adown=3)
own = prof("own", load=14, unload=2, send=14, bcast=5, aclone=4, adown=1, mclone=5, mdrop=2, adrop=2, sdrop=3, rdrop=3, sk=["-", "d", "s"],
           bk=["-", "s"], lim="5,4,8,4,2", ln=60)
own0 = prof("own0", load=16, unload=1, send=16, bcast=4, aclone=2, mclone=4, mdrop=4, adrop=3, sdrop=4, rdrop=4, rnew=4, sk=["-", "d"],
            bk=["-"], caps="0,1,1,2", lim="4,3,8,3,1", ln=45, jnew=2)
guise = prof("guise", aclone=10, adown=4, lim="9,2,10,3,3", bcast=1)
guise_d = prof("guise_d", aclone=8, adown=4, aup=3, adrop=9, mdrop=2, lim="6,2,8,4,4", bcast=1, jnew=4, cnew=2, jpoll=6, probe=8, ln=50)
LOOP = dict(pend=6, ret=12, stop=2, stopall=1, panic=1, sel=4, join=4, cont=1)
CALM = dict(pend=6, ret=14, sel=2, join=2)
TASKS = dict(knew=8, kpoll=25, kdrop=1, mclone=3, rnew=1, rpoll=2, dpoll=2, adrop=1, mdrop=1)
loops = prof("loops", kinds=["run", "run", "yld", "sel", "join"], acts=LOOP, lim="4,4,10,2,2,3", **TASKS)
run = prof("run", kinds=["run"], acts=dict(pend=4, ret=10, stop=2, stopall=1, panic=1, cont=1), lim="4,4,10,2,2,2",
           **dict(TASKS, kdrop=2, adrop=3))
run2 = prof("run2", kinds=["run", "yld"], acts=dict(pend=4, ret=10, stop=3, panic=1), lim="2,2,10,1,2,1", ln=40,
            **dict(TASKS, kdrop=2, adrop=3, mclone=1, knew=12))
sel = prof("sel", kinds=["sel", "join", "run"], acts=LOOP, lim="4,4,10,2,1,3", **TASKS)
sel2 = prof("sel2", kinds=["sel", "join"], acts=dict(pend=10, ret=10, stop=3, sel=3, join=3), lim="3,2,12,1,1,2", ln=50,
            **dict(TASKS, knew=12, adrop=0))
nest = prof("nest", kinds=["run"], acts=CALM, lim="3,3,12,1,1,2", **dict(TASKS, adrop=0, kdrop=0))

SPAWN = dict(knew=14, kpoll=25, kdrop=0, mclone=2, rnew=1, rpoll=2, dpoll=2, adrop=4, mdrop=1, adown=2)
RTS = ["tokio", "smol", "astd"]
spw = prof("spw", kinds=RTS, acts=dict(LOOP, pend=4), lim="4,3,10,2,2,1", **SPAWN)
spw2 = prof("spw2", kinds=RTS, acts=dict(pend=3, ret=12, stop=2, cont=1), lim="4,1,12,1,2,1", chan=0, either=0, ln=40, **dict(SPAWN, rnew=0, mclone=0))

SINK = dict(xnew=4, xstart=14, xpoll=22, xdrop=1, aclone=4, adown=1)
snk = prof("snk", chan=0, lim="5,3,12,4,1,3", caps="-1,0,1,1,2", adrop=0, mdrop=0, jnew=0, cnew=0, **SINK)
snk2 = prof("snk2", chan=0, lim="4,2,8,4,1,2", caps="0,1,2", ln=45, acts=dict(pend=3, ret=9, stop=1, panic=2), sk=["-"], bk=["-"],
            **dict(SINK, xdrop=2, mdrop=1, adrop=2, rdrop=2, send=3, bcast=1))

SPAN = dict(waits=8, dspan=4)
spn = prof("spn", md=1, sk=["-", "d"], bk=["-"], jnew=0, cnew=0, adrop=0, mdrop=1, rcancel=4, mclone=2, **SPAN)
spn2 = prof("spn2", md=1, jnew=0, cnew=0, mdrop=3, lim="4,3,10,5,1,2", ln=50, mbaddr=1, **SPAN)
spni = prof("spni", md=2, jnew=0, cnew=0, adrop=0, mdrop=1, rcancel=3, mclone=2, dspan=4)
spnk = prof("spnk", md=1, kinds=["run", "sel", "join"], acts=dict(CALM, stop=1, panic=1), lim="3,3,12,2,1,2",
            **dict(TASKS, waits=6, dspan=1))
spnx = prof("spnx", md=1, chan=0, lim="5,3,12,4,1,3", adrop=0, mdrop=0, jnew=0, cnew=0, **dict(SINK, **SPAN))

P = {
    "C01": dict(graphs=["uni1", "uni0", "unix", "mix1"], conc=["unix", "uni0"], profiles=[base, cancel, wait0, deep, disc, loops, long_]),
    "C02": dict(graphs=["fifo2", "fifox", "unix"], conc=["fifo2"], profiles=[fifo, fifo2, deep, wait, long_]),
    "C03": dict(graphs=["mixx", "mix1", "fifo2", "bc2"], conc=["mix1"], profiles=[prios, deep, stop1, wait]),
    "C04": dict(graphs=["bc1", "bc2", "mix1"], conc=["bc1"], profiles=[bcast, bcast2, base, longb]),
    "C05": dict(graphs=["uni1", "uni0", "bc1", "fifo2"], conc=["uni1", "bc1"], profiles=[wait, base, bcast2, probes2, wait0, longb]),
    "C06": dict(graphs=["uni0", "uni1", "bc1", "fifo2"], conc=["uni0", "bc1"], profiles=[wait, wait0, bcast2, disc2]),
    "C07": dict(graphs=["uni1", "mix1", "bc1"], conc=["unix", "mix1"], profiles=[idle, base, cancel, life2, run]),
    "C08": dict(graphs=["unix", "uni1", "bc1", "mix1"], conc=["unix", "mix1"], profiles=[cancel, bcast, wait0, stop]),
    "C09": dict(graphs=["uni1", "uni0", "disc"], conc=["uni1"], profiles=[scancel, base, wait]),
    "C10": dict(graphs=["life", "pay1", "uni0"], conc=["life", "pay2"], profiles=[life, life2, base, pay0, run, loops]),
    "C11": dict(graphs=["stop", "run2"], conc=["stop"], profiles=[stop, stop1, run, loops, sel]),
    "C12": dict(graphs=["disc", "join", "pay1"], conc=["disc"], profiles=[disc, disc2, pay, run]),
    "C13": dict(graphs=["disc", "unix", "stop"], conc=["disc"], profiles=[result, base, disc, run]),
    "C14": dict(graphs=["join", "disc"], conc=["join"], profiles=[join, disc]),
    "C15": dict(graphs=["bc1", "life", "uni1", "pay1"], profiles=[probes, probes2]),
    "C16": dict(extra=[extra.ident]),
    "C17": dict(graphs=["run1", "run2", "run0", "nest1"], profiles=[run, run2, loops]),
    "C18": dict(graphs=["sel1", "sel0", "nest1"], profiles=[sel, sel2, nest]),
    "C19": dict(conc=["uni0", "unix", "bc1", "mix1", "life", "join", "disc", "stop", "pay2"], pairs=80,
                profiles=[base, cancel, disc, disc2, join, life, stop, pay, wait], extra=[extra.refine, extra.conc_model]),
    "C20": dict(graphs=["pay1", "own1", "own2"], conc=["pay1", "pay2"], profiles=[pay, pay0, own, own0]),
    "C21": dict(graphs=["snk1", "snk0", "snk2"], profiles=[snk, snk2]),
    "C22": dict(graphs=["span1", "spanx", "spanb", "spani", "spank"], profiles=[spn, spn2, spni, spnk, spnx], traced=True),
    "C23": dict(graphs=["uni1", "uni0", "life"], conc=["uni1"], profiles=[guise, guise_d]),
    "C24": dict(graphs=["spawn1", "spawn2"], profiles=[spw, spw2], spawned=True),
}
TECH = ("TLA+ specification checked with TLC; its state graph walked through the real code, "
        "and traces recorded from the real code checked against it")
NOTE = ("Small configurations of the specification are explored exhaustively and every transition of their state "
        "graphs is executed on the real code; beyond those bounds, seeded random histories of the real code are "
        "checked to be behaviours of the specification. Trusts TLC and the harness' recording of results.")
HOOKS = dict(
    guard="cfg xtra_verif", enable="RUSTFLAGS=\"--cfg xtra_verif\"",
    source_commits=["69e219078f0c27a9035762963e935c300839c39c"])
NOT_APPLICABLE = {}
