#!/usr/bin/env python3
"""Driver of the checks: vt.py setup | check <ID> | replay <file>.

exit 0: the property held on everything explored
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the check itself failed
"""
import concurrent.futures as cf
import atexit, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
B = os.path.join(V, "build")
SPEC = os.path.join(V, "spec")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import graphs  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Tool(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "1.75.0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "TERM", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


TRACED = ("harness-span", "", "target-span")
SPAWNED = ("harness-spawn", "", "target-spawn")
HOOKED = ("harness-conc", "--cfg xtra_verif", "target-conc")


def cargo(crate, flags="", target="target"):
    """Build a harness crate against /repo's working tree; the path of its binary."""
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(B, target)
    if flags:
        e["RUSTFLAGS"] = flags
    with Lock("cargo-" + target):
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(V, crate),
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Tool("build of %s failed:\n%s" % (crate, p.stdout[-4000:]))
    return e["CARGO_TARGET_DIR"] + "/debug/"


def tlc(module, cfg, work, workers=8, envx=None, timeout=600, heap="4g", extra=()):
    """Run TLC on a copy of the specification; (exit code, output)."""
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), work)
    open(os.path.join(work, "run.cfg"), "w").write(cfg)
    e = env()
    e.update(envx or {})
    out = os.path.join(work, "out.txt")
    with open(out, "w") as fo:
        p = subprocess.run(["timeout", str(timeout), "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
                            "-XX:ParallelGCThreads=%d" % max(2, workers // 2),
                            "-Djava.io.tmpdir=" + work, "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
                            "-metadir", os.path.join(work, "md"), "-noGenerateSpecTE", *extra,
                            "-config", "run.cfg", module + ".tla"],
                           cwd=work, env=e, stdout=fo, stderr=subprocess.STDOUT)
    return p.returncode, out


def stats(out):
    m = None
    with open(out, errors="replace") as f:
        for line in f:
            x = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if x:
                m = (int(x.group(1)), int(x.group(2)))
    return m


def scratch(name):
    d = os.path.join(B, "tmp")
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix=name + "-", dir=d)
    atexit.register(shutil.rmtree, w, True)
    return w


# ---------------------------------------------------------------- the specification's state graphs
def spec_hash(*extra):
    h = hashlib.sha256()
    for f in ("ChanOps.tla", "SinkOps.tla", "LoopOps.tla", "SpanOps.tla", "XtraSeq.tla", "Identity.tla"):
        h.update(open(os.path.join(SPEC, f), "rb").read())
    for x in extra:
        h.update(x.encode())
    return h.hexdigest()[:16]


def tla_list(s):
    return [x for x in re.split(r"[{}<>,\s]+", s) if x]


def graph_path(name):
    c = graphs.G[name]
    return os.path.join(B, "graphs", "%s-%s.g" % (name, spec_hash(graphs.cfg(c, True), str(c["cap"]))))


def export(name):
    """Export the state graph of a small configuration from TLC."""
    path = graph_path(name)
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    c = graphs.G[name]
    w = scratch("g-" + name)
    rc, out = tlc(c.get("module", "XtraSeq"), graphs.cfg(c, True), w, workers=1, timeout=900)
    if rc != 0:
        raise Tool("TLC on %s: exit %d\n%s" % (name, rc, tail(out)))
    ids, evs, obs, lines, seen = {}, {}, {}, [], set()

    def sid(s):
        return ids.setdefault(s, len(ids))
    init = None
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"I'):
                init = line[2:-2]
                sid(init)
            elif line.startswith('"G'):
                a, b, e, o = line[2:-2].replace('\\"', '"').split("|")
                if init is None:
                    raise Tool("no initial state")
                if e not in evs:
                    f5 = re.match(r'<<"(\w+)", (-?\d+), (-?\d+), (-?\d+), "([^"]*)">>', e).groups()
                    evs[e] = (len(evs), "E " + " ".join(f5))
                if o not in obs:
                    x = re.match(r'<<"(\w*)", (-?\d+), \{([^}]*)\}, <<(.*)>>>>$', o).groups()
                    ls = [",".join(tla_list(v)) or "-" for v in x[2:]]
                    obs[o] = (len(obs), "O %s %s %s %s" % (x[0], x[1], ls[0], ls[1]))
                t = (sid(a), evs[e][0], obs[o][0], sid(b))
                if t not in seen:
                    seen.add(t)
                    lines.append(t)
    st = stats(out)
    if st is None or st[1] != len(ids):
        raise Tool("graph %s: TLC found %s states, the export has %d" % (name, st, len(ids)))
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write("C %d %d\n" % (c["cap"], len(ids)))
        for _, s in sorted(evs.values()):
            f.write(s + "\n")
        for _, s in sorted(obs.values()):
            f.write(s + "\n")
        for t in lines:
            f.write("T %d %d %d %d\n" % t)
    os.rename(tmp, path)
    shutil.rmtree(w, ignore_errors=True)
    return path


def tail(path, n=25):
    ls = open(path, errors="replace").readlines()
    err = [i for i, l in enumerate(ls) if "Error:" in l]
    return "".join(ls[err[0]:err[0] + n] if err else ls[-n:])


# ---------------------------------------------------------------- trace validation
def parse_verdicts(out):
    acc, rej = {}, {}
    txt = open(out, errors="replace").read()
    for m in re.finditer(r'<<"ACCEPT", (\d+), (\d+)>>', txt):
        acc[int(m.group(1))] = int(m.group(2))
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*\{([^}]*)\},\s*"((?:[^"\\]|\\.)*)",\s*"((?:[^"\\]|\\.)*)"', txt):
        rej[int(m.group(1))] = (int(m.group(2)), sorted(re.findall(r'"(\w+)"', m.group(3))),
                                m.group(4).replace('\\"', '"'), m.group(5).replace('\\"', '"'))
    return acc, rej


TRACE_CFG = {"TraceIdent": "SPECIFICATION TSpec\nCONSTANTS NM=0 NH=0 Ops={}\n"}


def validate(traces, name, module="TraceSeq", jobs=3, timeout=500):
    """Check recorded traces against the specification: [(index, pos, tags, want, got)] rejected,
    TLC's states, and the traces not judged.

    How a call's steps may have interleaved with another's is searched exhaustively, and for a few
    traces of several threads that is too much: they are tried again on their own, then left out."""
    if not traces:
        return [], 0, []
    patient = module == "TraceConc"
    jobs = max(1, min(jobs, len(traces) // 50 + 1))

    def one(ix, limit):
        w = scratch("t-" + name)
        with open(os.path.join(w, "traces.json"), "w") as f:
            json.dump([traces[i] for i in ix], f)
        rc, out = tlc(module, TRACE_CFG.get(module, "SPECIFICATION Spec\n") + "CHECK_DEADLOCK FALSE\n", w,
                      workers=max(2, 8 // jobs), envx={"TRACES": os.path.join(w, "traces.json")},
                      timeout=limit)
        acc, rej = parse_verdicts(out)
        if rc != 0 or len(acc) + len(rej) != len(ix):
            if not (patient and (rc in (124, 137) or "OutOfMemory" in open(out, errors="replace").read())):
                raise Tool("%s: exit %d, %d+%d verdicts for %d traces\n%s"
                           % (module, rc, len(acc), len(rej), len(ix), tail(out)))
        st = stats(out) or (0, 0)
        shutil.rmtree(w, ignore_errors=True)
        return ([(ix[t - 1],) + r for t, r in sorted(rej.items())], st[0],
                [i for k, i in enumerate(ix) if k + 1 not in acc and k + 1 not in rej])

    def go(parts, limit, end=None):
        left = []
        for r, s, u in ex.map(lambda p: one(p, limit) if not end or time.time() < end else ([], 0, p), parts):
            res.extend(r)
            n.append(s)
            left.extend(u)
        return left
    res, n = [], []
    with cf.ThreadPoolExecutor(jobs) as ex:
        k = jobs * 2 if patient and len(traces) > 2000 else jobs
        left = go([list(range(i, len(traces), k)) for i in range(k)], (150 if TIER == "quick" else 3000) if patient else timeout)
        if left:
            k = min(len(left), 32)
            left = go([left[i::k] for i in range(k)], 30, time.time() + 120)
    return sorted(res), sum(n), left


def short(ev):
    if ev and len(ev[0]) == 11:   # calls of several threads: those begun in [ ], their returns as -> thread
        return " ".join({"s": "", "c": "[%d:" % e[1], "r": "->%d:" % e[1], "x": "!!%d:" % e[1]}[e[0]] + short([e[2:]])
                        + ("]" if e[0] == "c" else "") for e in ev)
    return " ".join("%s(%s)%s" % (e[0], ",".join(str(x) for x in e[1:5] if x not in (0, "-")),
                                  ("=" + e[5] + ("#%d" % e[6] if e[6] else "")) if e[5] not in ("ok", "") else "")
                    for e in ev)


# ---------------------------------------------------------------- running the harness
def xh(args, timeout=420, binary="target/debug/xh"):
    p = subprocess.run(["timeout", "-k", "5", str(timeout), os.path.join(B, binary)] + args, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def harness(args, out, work, journal_args=(), binary="target/debug/xh"):
    """Run the harness; if the code under test takes the whole process down,
    run again noting every call beforehand: the last one is the culprit."""
    rc, txt = xh(args + ["--out", out], binary=binary)
    if rc == 0:
        return json.load(open(out)), txt
    if rc in (124, 137) or rc == 101:
        raise Tool("harness: exit %d\n%s" % (rc, txt[-3000:]))
    j = os.path.join(work, "journal.json")
    rc2, txt2 = xh(args + ["--out", out, "--journal", j] + list(journal_args), binary=binary)
    if rc2 == 0:
        return json.load(open(out)), txt2
    if not os.path.exists(j):
        raise Tool("harness: exit %d then %d\n%s" % (rc, rc2, txt2[-3000:]))
    tr = json.load(open(j))
    last = tr["ev"][-1]
    if len(last) == 9:
        last[5] = "boom"
    elif last[0] == "s":
        last[7] = "boom"
    else:
        tr["ev"].append(["r"] + last[1:7] + ["boom", 0, [], []])
    return [tr], "ABORT exit=%d" % rc2


def confirm_hang(tr, work):
    """A call that did not return in time: does it, given more time?"""
    rc, again = run_trace(tr, work, stall=25)
    return rc != 0 or not again or (again[0]["ev"] and again[0]["ev"][-1][5] == "hang")


def conc_again(tr, args, work):
    """Run one schedule again; the trace it leaves."""
    o = os.path.join(work, "again.json")
    rc, _ = xh(args + ["--out", o, "--how", tr["how"]], timeout=120, binary=XHC)
    return json.load(open(o)) if rc == 0 else None


XHC = "target-conc/debug/xhc"
XHS = "target-span/debug/xhs"
XHP = "target-spawn/debug/xhp"


def plain(traced=False, kinds=()):
    """The harness that can do it: with tracing, with runtimes, or plain."""
    return XHS if traced else XHP if {"tokio", "smol", "astd"} & set(kinds) else "target/debug/xh"


def run_trace(tr, work, stall=8):
    p = os.path.join(work, "in.txt")
    with open(p, "w") as f:
        f.write("%d %d %d %d %d\n" % (tr["cap"], tr["chan"], tr["either"], tr["variant"], tr.get("md", 0)))
        f.write("\n".join(" ".join(map(str, e[:5])) for e in tr["ev"]))
    o = os.path.join(work, "replayed.json")
    rc, txt = xh(["replay", "--in", p, "--out", o, "--stall", str(stall)], timeout=120,
                 binary=plain(tr.get("md"), [e[4] for e in tr["ev"] if e[0] == "knew"]))
    return rc, (json.load(open(o)) if rc == 0 else None)


def kv(txt, key):
    m = re.search(r"\b%s=(\d+)" % key, txt)
    return int(m.group(1)) if m else 0


# ---------------------------------------------------------------- one check
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.work = scratch("c-" + pid)
        self.bad = []          # (trace, pos, tags, want, got, where)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.notes = []
        self.assume = []
        self.known = []
        self.traced = False
        self.spawned = False

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    # -- exhaustive exploration of the specification
    def model(self, name):
        w = scratch("m-" + name)
        rc, out = tlc(graphs.G[name].get("module", "XtraSeq"), graphs.cfg(graphs.G[name]), w, workers=4)
        if rc != 0:
            raise Tool("TLC on %s: exit %d\n%s" % (name, rc, tail(out)))
        st = stats(out)
        shutil.rmtree(w, ignore_errors=True)
        return name, st

    def counted(self, name, st):
        self.cov["states"] += st[1]
        self.cov["transitions"] += st[0]
        self.notes.append("model %s: %d states, %d transitions" % (name, st[1], st[0]))

    # -- walk of the state graph through the code
    def walk(self, name, limit):
        c = graphs.G[name]
        path = export(name)
        trans = sum(1 for l in open(path) if l[0] == "T")
        stride = max(1, trans // limit)
        o = os.path.join(self.work, "walk-%s.json" % name)
        bad, txt = harness(["walk", "--graph", path, "--seed", str(SEED), "--ext", str(c["ext"]), "--stride", str(stride),
                            "--chan", str(c["chan"]), "--either", str(c["either"]), "--md", str(c.get("md", 0))], o, self.work, ["--workers", "1"],
                           plain(c.get("md"), c.get("kinds", ())))
        self.add("walked_runs", kv(txt, "runs"))
        self.add("walked_transitions", kv(txt, "covered"))
        self.add("graph_transitions", kv(txt, "transitions"))
        self.add("traces_validated_against_impl", kv(txt, "runs"))
        self.notes.append("walk %s: %s" % (name, txt.strip().splitlines()[-1] if txt.strip() else ""))
        return [(t, "walk " + name) for t in bad]

    def rand(self, profiles, n, seed=None):
        p = os.path.join(self.work, "profiles.txt")
        open(p, "w").write("\n".join(profiles) + "\n")
        o = os.path.join(self.work, "rand.json")
        trs, txt = harness(["rand", "--profiles", p, "--traces", str(n), "--seed", str(SEED if seed is None else seed)],
                           o, self.work, binary=plain(self.traced, ["tokio"] if self.spawned else ()))
        self.add("recorded_calls", sum(len(t["ev"]) for t in trs))
        return [(t, "random") for t in trs]

    # -- calls from several threads, under controlled schedules
    def conc(self, conf):
        try:
            cargo(*HOOKED)
        except Tool as e:
            # the sources no longer offer the hooks: the rest of the check stands
            self.notes.append("concurrent part skipped: " + str(e)[-300:])
            return []
        quick = TIER == "quick"
        items = []

        def run(args, where):
            o = os.path.join(self.work, "conc-%d.json" % len(items))
            trs, txt = harness(args, o, self.work, binary=XHC)
            self.add("schedules_run", kv(txt, "runs"))
            self.add("pairs", kv(txt, "pairs"))
            self.add("pairs_all_schedules", kv(txt, "exhausted"))
            self.add("recorded_concurrent_calls", sum(1 for t in trs for e in t["ev"] if e[0] == "c"))
            self.notes.append("%s: %s" % (where, " ".join(txt.split())))
            items.extend((t, (where, args)) for t in trs)
        for g in conf["conc"]:
            c = graphs.G[g]
            run(["pairs", "--graph", export(g), "--pairs", str(conf.get("pairs", 110) if quick else 4000),
                 "--schedules", str(300 if quick else 3000), "--bound", str(2 if quick else 3),
                 "--seed", str(SEED), "--chan", str(c["chan"]), "--either", str(c["either"]),
                 "--secs", str(40 if quick else 600)], "pairs " + g)
        def few(x):   # calls of several threads interleave in more ways the more messages are around
            f = x.split("|")
            lim = f[7].split(",")
            f[7] = ",".join(lim[:2] + [str(min(int(lim[2]), 5 if f[4] in ("s", "s,ds,-") else 8))] + lim[3:])
            return "|".join(f)
        p = os.path.join(self.work, "profiles-c.txt")
        open(p, "w").write("\n".join(few(x) for x in conf["profiles"] if x.endswith("|") and "load:" not in x and int(x.split("|")[10]) <= 300) + "\n")   # no loops, no loads
        run(["conc", "--profiles", p, "--programs", str(400 if quick else 20000), "--rounds", "16", "--keep",
             str(3 if quick else 8), "--seed", str(SEED), "--secs", str(40 if quick else 600)], "threads")
        return items

    def judge(self, items, module="TraceSeq"):
        rej, n, left = validate([t for t, _ in items], self.pid, module, jobs=4 if module == "TraceConc" else 3)
        if left:
            self.notes.append("%d traces with too many interleavings to judge" % len(left))
        self.add("trace_check_states", n)
        sure, t0 = 0, time.time()      # calls that really never return, confirmed so far
        for i, pos, tags, want, got in sorted(rej, key=lambda r: r[1]):
            t, where = items[i]
            last = t["ev"][pos - 1]
            slow = False
            if module == "TraceConc":
                where, args = where
                t = dict(t, args=args)
                # a deadlock is proved by the scheduler; anything else that takes too long is tried again
                slow = last[7] in ("stuck", "hang") and not (last[0] == "x" and last[7] == "hang")
            elif module == "TraceSeq":
                slow = last[5] == "hang"
            if slow and self.pid in tags:
                # enough is known once a few are confirmed, and a time-out proves nothing by itself
                if sure >= 3 or time.time() - t0 > 200:
                    self.notes.append("a call that did not return in time, not tried again")
                    continue
                if module == "TraceConc":
                    again = conc_again(t, args, self.work)
                    real = not again or again[0]["ev"][-1][7] in ("stuck", "hang", "boom")
                else:
                    real = confirm_hang(t, self.work)
                if not real:
                    self.notes.append("a slow call, not a deadlock: ignored")
                    continue
                sure += 1
            if "TOOL" in tags:
                raise Tool("the specification does not allow event %d of %s at all: %s" % (pos, where, short(t["ev"])))
            self.bad.append((t, pos, tags, want, got, where))
        return rej

    # -- the whole thing for properties of the channel
    def channel(self, conf):
        quick = TIER == "quick"
        n = 1600 if quick else 30000
        limit = 60000 if quick else 10 ** 9
        with cf.ThreadPoolExecutor(4) as ex:
            ms = [ex.submit(self.model, g) for g in conf["graphs"]]
            items = []
            for g in conf["graphs"]:
                items += self.walk(g, limit)
            nwalk = len(items)
            rnd = self.rand(conf["profiles"], n)
            self.judge(items + rnd)
            if "conc" in conf:
                con = self.conc(conf)
                self.judge(con, "TraceConc")
                self.add("traces_validated_against_impl", len(con))
                self.cov["samples"] += [short([e[2:] for e in t["ev"] if e[0] != "c"]) for t, _ in con[-2:]]
            for m in ms:
                self.counted(*m.result())
        self.add("traces_validated_against_impl", len(rnd))
        self.cov["samples"] += [short(t["ev"]) for t, _ in rnd[:3]]
        self.notes.append("walk mismatches: %d" % nwalk)

    def finish(self):
        mine = [b for b in self.bad if self.pid in b[2]]
        other = [b for b in self.bad if self.pid not in b[2]]
        rc = 0
        if mine:
            mine.sort(key=lambda b: b[1])
            t, pos, tags, want, got, where = mine[0]
            d = os.path.join(B, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, self.pid + ".json")
            json.dump(dict(t, property=self.pid, failing_event=pos, evidence_against=tags, expected=want, seen=got,
                           found_by=where), open(p, "w"), indent=1)
            print("%d recorded executions are not behaviours of the specification; the shortest:" % len(mine))
            print("  cap=%s  %s" % (t.get("cap"), short(t["ev"][:pos]) if "ev" in t else ""))
            print("  expected %s" % want)
            print("  seen     %s" % got)
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            rc = 1
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        self.cov["notes"] = self.notes
        self.cov["divergences_judged_against_other_properties"] = len(other)
        ev = dict(property=self.pid, tier="thorough" if TIER == "thorough" else "quick", seed=SEED, level="model_checking",
                  coverage=self.cov, wall_s=round(time.time() - self.t0, 2), violations=len(mine),
                  assumptions=self.assume)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if rc == 0:
            print("%s: held; %d model states, %d executions of the real code checked, %.1f s" % (
                self.pid, self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return rc


def setup():
    t0 = time.time()
    cargo("harness")
    cargo(*HOOKED)
    cargo(*TRACED)
    cargo(*SPAWNED)
    with cf.ThreadPoolExecutor(6) as ex:
        for p in ex.map(export, graphs.G):
            print(os.path.basename(p), os.path.getsize(p))
    print("setup: %.1f s" % (time.time() - t0))
    return 0


def check(pid):
    import props
    cargo("harness")
    c = Check(pid)
    conf = props.P[pid]
    if conf.get("traced"):
        cargo(*TRACED)
        c.traced = True
    if conf.get("spawned"):
        cargo(*SPAWNED)
        c.spawned = True
    if "graphs" in conf or "conc" in conf:
        c.channel(dict({"graphs": []}, **conf))
    for f in conf.get("extra", []):
        f(c)
    return c.finish()


def main():
    try:
        if sys.argv[1] == "setup":
            return setup()
        if sys.argv[1] == "check":
            return check(sys.argv[2])
        raise Tool("usage: vt.py setup | check ID")
    except Tool as e:
        print("ERROR: " + str(e))
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
