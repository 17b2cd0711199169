"""Dedicated workloads."""
import os, re, shutil, random, itertools
import xml.etree.ElementTree as ET
from .world import *
from . import rules as R
from .host import Died, HarnessError

def fresh_dir(ctx, n):
    d = os.path.join(ctx.scratch, n)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

# ---------------------------------------------------------------- P02: rules
def rules(ctx, rng, case):
    """Many rules, observed through every rendering, under many criterion states."""
    h = ctx.host()
    d = fresh_dir(ctx, "r")
    prof = dict(weights={}, gen=dict(kinds=["int"], arrays=0), nsub=1, maxleaves=4, ncrit=rng.choice([1, 2, 3, 4, 6]), initial=0)
    w = World(h, rng, d, ctx.out, prof, 1, ctx.note)
    w.log = ctx.log
    try:
        _rules(w, ctx, rng)
    finally:
        ctx.op = w.op
        if ctx._host is not None and h.p.poll() is None:
            h.call("del", 1)

def _rules(w, ctx, rng):
    w.setup()
    w.op = "rules"
    w.api("setTuningMode", True)
    w.tuning = True
    n = rng.randint(3, 8)
    for i in range(n):
        w.api("createDomain", "R%d" % i)
        dm = Dom("R%d" % i)
        w.domains.append(dm)
        for k in range(rng.choice([1, 1, 2])):
            w.api("createConf", dm.name, "c%d" % k)
            c = Conf("c%d" % k)
            c.mem = bytearray(w.mem)
            dm.confs.append(c)
            if rng.random() < .95:
                set_rule(w, dm, c)
    def check_states(what):
        for s in states(w, rng, 24):
            for c, v in zip(w.crits, s):
                if c.state != v:
                    c.state = v
                    w.h.call("setcrit", 1, c.name, v)
            w.op = what
            w.q_status()
            if rng.random() < .1:
                w.check_crits()
            w.note("rule evaluations", sum(len(d.confs) for d in w.domains))
    check_states("evaluate")
    # rewrite every rule from its own rendering
    for dm in w.domains:
        for c in dm.confs:
            w.op = "render"
            ok, t = w.do("getRule", "getRule", [dm.name, c.name])
            w.q_rule(dm, c)
            if c.rule is None:
                continue
            ok, e = w.do("setRule", "setRule", [dm.name, c.name, t])
            w.expect(ok, True, "setRule with the rendering %r of a rule" % t, e)
            w.q_rule(dm, c)
            w.note("renderings read back")
    check_states("evaluate-rendered")
    # malformed rules leave the former in force
    for _ in range(4):
        dm = rng.choice(w.domains)
        c = rng.choice(dm.confs)
        t = R.gen_bad_text(rng, w.crits)
        w.op = "malformed"
        ok, e = w.do("setRule", "setRule", [dm.name, c.name, t])
        w.expect(ok, False, "setRule %r" % t, e)
        w.q_rule(dm, c)
        w.note("malformed rules refused")
    check_states("evaluate-malformed")
    # through documents
    w.op = "document"
    ok, f = w.h.call("api", 1, "exportDomains", "", rng.random() < .5, False)
    w.expect(ok, True, "export", f[0])
    root = ET.fromstring(f[0])
    w.compare_export(root) if False else None
    ok, e = w.api("importDomains", f[0], False, False)
    w.expect(ok, True, "import of exported rules", e)
    for dm in w.domains:
        for c in dm.confs:
            w.q_rule(dm, c)
    check_states("evaluate-imported")
    # and a whole document written from the model
    for dm in w.domains:
        for c in dm.confs:
            c.rule = R.gen_rule(rng, w.crits) if rng.random() < .9 else None
    w.op = "document"
    ok, e = w.api("importDomains", w.domains_xml(w.domains, settings=False), False, False)
    w.expect(ok, True, "import of rules", e)
    for dm in w.domains:
        for c in dm.confs:
            w.q_rule(dm, c)
    w.check_domains() if False else None
    check_states("evaluate-document")
    # rule clearing
    dm = rng.choice(w.domains)
    c = rng.choice(dm.confs)
    w.op = "clearRule"
    ok, e = w.do("clearRule", "clearRule", [dm.name, c.name])
    w.expect(ok, True, "clearRule", e)
    c.rule = None
    w.q_rule(dm, c)
    check_states("evaluate-cleared")
    w.observe(False)

def set_rule(w, dm, c):
    r = w.rng
    c.rule = R.gen_rule(r, w.crits, r.choice([1, 2, 3, 4]))
    ok, e = w.do("setRule", "setRule", [dm.name, c.name, c.rule.txt(r)])
    w.expect(ok, True, "setRule %r" % c.rule.txt(), e)
    w.q_rule(dm, c)
    w.note("rules set")

def states(w, rng, n):
    doms = []
    for c in w.crits:
        if c.inclusive:
            vs = set([0])
            for m in range(min(1 << len(c.values), 16)):
                vs.add(sum(v for i, (v, _) in enumerate(c.values) if m >> i & 1))
        else:
            vs = set(v for v, _ in c.values) | {0, 77}
        doms.append(sorted(vs))
    tot = 1
    for d in doms:
        tot *= len(d)
    if tot <= n:
        out = list(itertools.product(*doms))
        w.note("criterion state spaces covered completely")
    else:
        out = [tuple(rng.choice(d) for d in doms) for _ in range(n)]
    rng.shuffle(out)
    return out
