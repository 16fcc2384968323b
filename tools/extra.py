"""Parts of checks that are not about traces of the channel."""
import concurrent.futures as cf
import os
import shutil

import graphs
import vt

# exhaustive exploration of interleavings: configuration, calls that may overlap
CONC = [("life", "aup adrop aclone adown spoll rpoll mdrop", "quick"),
        ("bc1", "spoll rpoll rdrop mdrop", "quick"),
        ("pay2", "spoll sdrop rpoll rdrop dpoll mdrop adrop", "thorough"),
        ("disc", "spoll rpoll rdrop mdrop dpoll", "thorough"),
        ("uni0", "spoll rpoll rdrop mdrop", "thorough"),
        ("pay1", "spoll sdrop rpoll rdrop dpoll mdrop adrop", "thorough"),
        ("join", "mdrop jpoll cnew jnew spoll adrop", "thorough")]
REFINE = [("life", "quick"), ("bc1", "quick"), ("pay2", "quick"), ("disc", "quick")]


def conc_model(c):
    """Every interleaving of two threads' atomic steps, in the specification."""
    for name, ops, tier in CONC:
        if tier == "thorough" and vt.TIER != "thorough":
            continue
        w = vt.scratch("k-" + name)
        cfg = graphs.cfg(graphs.G[name]).replace("SPECIFICATION Spec", "SPECIFICATION CSpec") \
            .replace("VIEW View", "VIEW CView") \
            .replace("INVARIANT Inv\nPROPERTY Steps", "INVARIANT C_Quiet\nINVARIANT C_Live\nINVARIANT C_Counts\nPROPERTY C_Owed")
        cfg += "Threads=2 Rival=TRUE COps={%s}\n" % ", ".join('"%s"' % o for o in ops.split())
        rc, out = vt.tlc("XtraConc", cfg, w, workers=8, timeout=800, heap="10g")
        if rc != 0:
            raise vt.Tool("TLC on XtraConc/%s: exit %d\n%s" % (name, rc, vt.tail(out)))
        st = vt.stats(out)
        shutil.rmtree(w, ignore_errors=True)
        c.cov["states"] += st[1]
        c.cov["transitions"] += st[0]
        c.notes.append("interleavings %s {%s}: %d states, %d transitions" % (name, ops, st[1], st[0]))


def refine(c):
    """The atomic steps of a call, taken without interruption, do what the call does."""
    names = [n for n in graphs.G if (n, "quick") in REFINE
             or vt.TIER == "thorough" and not graphs.G[n].get("raw") and not any(graphs.G[n][x] for x in ("nk", "nx", "md"))]

    def one(name):
        w = vt.scratch("r-" + name)
        cfg = graphs.cfg(graphs.G[name]).replace("INVARIANT Inv\nPROPERTY Steps", "INVARIANT Agree")
        rc, out = vt.tlc("Refine", cfg, w, workers=2, timeout=800)
        if rc != 0:
            raise vt.Tool("TLC on Refine/%s: exit %d\n%s" % (name, rc, vt.tail(out)))
        st = vt.stats(out)
        shutil.rmtree(w, ignore_errors=True)
        return name, st
    with cf.ThreadPoolExecutor(4) as ex:
        for name, st in ex.map(one, names):
            c.cov["states"] += st[1]
            c.notes.append("atomic steps agree with whole calls on %s: %d states" % (name, st[1]))


def ident(c):
    """C16: what handles are equal to."""
    quick = vt.TIER == "quick"
    c.counted(*c.model("ident"))
    items = c.walk("ident", 60000 if quick else 10 ** 9)
    o = os.path.join(c.work, "ident.json")
    trs, txt = vt.harness(["ident", "--traces", str(300 if quick else 20000), "--seed", str(vt.SEED)], o, c.work)
    c.add("recorded_calls", sum(len(t["ev"]) for t in trs))
    c.add("compared_pairs", sum(1 for t in trs for e in t["ev"] if e[0] == "icmp"))
    c.judge(items + [(t, "all pairs" if i < 2 else "random") for i, t in enumerate(trs)], "TraceIdent")
    c.add("traces_validated_against_impl", len(trs))
    c.cov["samples"] += [vt.short(t["ev"][:40]) for t in trs[2:4]]
