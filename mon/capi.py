"""P22: histories through the C interface."""
import os
from .world import *
from .special import fresh_dir

NULL = "\x01NULL"

class CWorld(World):
    """A framework behind a PfwHandler; the model is the one of World."""
    def __init__(self, host, rng, d, plugin_dir, prof, cid, note, log):
        World.__init__(self, host, rng, d, plugin_dir, prof, 100000 + cid, note)
        self.cid, self.log = cid, log
        self.bound = {}
        self.state = "new"
        self.err = ""
        self.phase = 0

    def c(self, op, *a):
        """-> ok, error, rest; checks that the last error goes with the outcome"""
        self.log.append("c%d %s %r" % (self.cid, op, [str(x)[:60] for x in a]))
        ok, f = self.h.call("c", self.cid, op, *a)
        self.log[-1] += " -> %s %r" % (ok, [x[:120] for x in f])
        err = f[0] if f else ""
        if ok and err:
            self.bad("lasterror", "%s %r succeeded but the last error is %r" % (op, a, err[:200]))
        if not ok and not err.strip():
            self.bad("lasterror", "%s %r failed with an empty last error" % (op, a))
        if not ok and op in ("setcrit", "getcrit", "bind") and a[0] and str(a[0]) not in err:
            self.bad("lasterror", "the error of %s %s does not name it: %r" % (op, a[0], err[:200]))
        ok2, g = self.h.call("c", self.cid, "err")
        if g[0] != err:
            self.bad("lasterror", "the last error changed from %r to %r" % (err, g[0]))
        self.note("last errors checked")
        return ok, err, f[1:]

    # ------------------------------------------------------------- set-up
    def prepare(self):
        r, p = self.rng, self.prof
        self.op = "setup"
        self.st = Gen(r, kinds=["int", "int", "bool", "enum", "string", "string", "float", "fixed", "lin"], arrays=.15).structure(None, 16)
        self.crits = R.gen_criteria(r, r.choice([0, 1, 2, 3]))
        if self.crits and r.random() < .2:
            self.crits[0] = R.Criterion("Many", True, [(1 << i, "w%d" % i) for i in range(31)])
        for c in self.crits:
            vals = [(1 << i if c.inclusive else i, l) for i, (n, l) in enumerate(c.values)]
            c.__init__(c.name, c.inclusive, vals)
        self.cby = {c.name: c for c in self.crits}
        doc = self.initial_domains() if self.crits and r.random() < .8 else None
        self.objs = [n for n in self.st.nodes if n.obj]
        self.hw = {}
        self.mem = bytearray(self.st.size)
        self.cfg = write_files(self.dir, self.st, doc, self.plugin_dir, tuning="false")
        self.h.call("c", self.cid, "create")
        self.logmode = r.choice(["0", "1", "1", "2"])

    def criteria_args(self, crits):
        f = []
        for n, inc, vals in crits:
            f += [n, inc, -1 if vals is None else len(vals)] + list(vals or [])
        return f

    def good_criteria(self):
        return [(c.name, c.inclusive, [l for _, l in c.values]) for c in self.crits]

    def unstarted_use(self, after):
        """Nothing is available before a successful start."""
        self.op = "unstarted" if not after else "failedstart"
        r = self.rng
        for k in r.sample(["getcrit", "setcrit", "apply", "bind", "unknown"], r.randint(1, 5)):
            if k == "apply":
                ok, e, _ = self.c("apply")
            elif k == "bind":
                ok, e, _ = self.c("bind", r.choice(self.st.leaves).path)
            elif k == "unknown":
                ok, e, _ = self.c(r.choice(["getcrit", "setcrit"]), "Unknown", 1)
            else:
                ok, e, _ = self.c(k, self.crits[0].name if self.crits else "X", 1)
                if after and self.crits:
                    continue
            if ok:
                self.bad("status", "%s succeeds on a framework which is not started" % k)
            self.note("uses before start refused")

    def failed_start(self):
        r = self.rng
        self.op = "failedstart"
        good = self.good_criteria()
        cfg = self.cfg
        kinds = ["missing", "name", "values", "dup", "dupval", "toomany", "broken", "subsystem"]
        k = r.choice(kinds)
        bad = None
        at = r.randint(0, len(good))
        if k == "missing":
            cfg = os.path.join(self.dir, "nosuch.xml")
        elif k == "name":
            good.insert(at, (NULL, r.random() < .5, ["a", "b"]))
        elif k == "values":
            good.insert(at, ("NoValues", r.random() < .5, None))
        elif k == "dup":
            good += [("Twice", r.random() < .5, ["a"]), ("Twice", r.random() < .5, ["a", "b"])]
        elif k == "dupval":
            good.insert(at, ("DupVal", r.random() < .5, ["a", "b", "a"]))
        elif k == "toomany":
            good.insert(at, ("TooMany", True, ["t%d" % i for i in range(r.choice([32, 33, 40]))]))
        elif k == "broken":
            cfg = os.path.join(self.dir, "broken.xml")
            t = open(self.cfg).read()
            with open(cfg, "w") as f:
                f.write(t[:r.randrange(len(t) - 20)])
        elif k == "subsystem":
            cfg = os.path.join(self.dir, "nosub.xml")
            t = open(self.cfg).read()
            with open(cfg, "w") as f:
                f.write(t.replace('Path="structure.xml"', 'Path="nosuch-structure.xml"'))
        ok, e, _ = self.c("start", cfg, self.logmode, len(good), *self.criteria_args(good))
        if ok:
            self.bad("status", "start succeeds with invalid %s" % k)
        if k in ("dup", "dupval", "toomany", "values") and not any(x in e for x in ("Twice", "DupVal", "TooMany", "values")):
            self.bad("lasterror", "the error of a start with invalid %s does not explain it: %r" % (k, e))
        self.note("failed starts")
        if self.h.raw("hw", "events")[1:]:
            self.bad("hw", "a failed start accessed the hardware")
        self.unstarted_use(True)
        self.op = "failedstart"
        if r.random() < .6:
            g = self.good_criteria()
            ok, e, _ = self.c("start", self.cfg, self.logmode, len(g), *self.criteria_args(g))
            if ok:
                self.bad("status", "a second start succeeds after a failed one")
        self.logs(None)

    def logs(self, want):
        """want: True some lines, False none, None unknown"""
        ok, l = self.h.call("c", self.cid, "logs")
        if l and (self.logmode != "1" or want is False):
            self.bad("logs", "unexpected log lines %r" % l[:3])
        if want and self.logmode == "1" and not l:
            self.bad("logs", "nothing was logged")
        return l

    def begin(self):
        h, r = self.h, self.rng
        h.raw("hw", "events")
        ok, f = h.call("c", self.cid, "err")
        self.op = "setup"
        if f[0]:
            self.bad("lasterror", "a new handle has the error %r" % f[0])
        if r.random() < .6:
            self.unstarted_use(False)
        if r.random() < .25:
            self.failed_start()
            self.state = "failed"
            return
        self.setup_hw()
        self.op = "start"
        g = self.good_criteria()
        ok, e, _ = self.c("start", self.cfg, self.logmode, len(g), *self.criteria_args(g))
        self.note("starts")
        if not ok:
            self.bad("status", "start failed: " + e)
        self.start_effects()
        self.state = "on"
        self.logs(True)

    def check_mem(self):
        out = self.h.raw("hw", "hw", self.iid)
        got = {self.opath[out[k].decode()]: out[k + 1] for k in range(1, len(out), 2)}
        by = {o.path: o for o in self.objs}
        for p, b in got.items():
            if self.ncanon(by[p], b) != self.ncanon(by[p], self.hw[p]):
                self.bad("hardware", "%s holds %s, expected %s" % (p, b.hex(), self.hw[p].hex()))
        for p, n in self.bound.items():
            self.read(n)

    def read(self, n, kind=None):
        kind = kind or self.rng.choice(["int", "string"])
        ok, e, f = self.c("geti" if kind == "int" else "gets", n.path)
        if n.bit is not None:
            v = n.type.typed_get_i(kind, n.get(self.mem))
        else:
            v = None if n.array else n.type.typed_get(kind, n.get(self.mem))
        if ok != (v is not None):
            self.bad("status", "reading %s as %s: %s (%s), expected %r" % (n.path, kind, ok, e, v))
        if kind == "int":
            if ok and int(f[0]) != v:
                self.bad("read", "%s reads %s, expected %d" % (n.path, f[0], v))
        elif f[0] != ("=" + v if ok else "NULL"):
            self.bad("read", "%s reads %r, expected %r" % (n.path, f[0], v))
        self.note("values read")

    # ------------------------------------------------------------- operations
    def step_c(self):
        r = self.rng
        self.exp = []
        if self.state == "failed":
            if r.random() < .5:
                self.unstarted_use(True)
            return
        k = r.choices(["setcrit", "getcrit", "apply", "bind", "unbind", "write", "read", "start"], [5, 3, 5, 6, 1.5, 10, 5, .6])[0]
        self.op = k
        if k in ("unbind", "write", "read") and not self.bound:
            k = self.op = "bind"
        getattr(self, "c_" + k)()
        self.note("operations")
        self.events += self.pop_events()
        self.check_events()
        if r.random() < .3:
            self.check_mem()
        for c in self.crits:
            if r.random() < .3:
                self.c_get(c)

    def c_setcrit(self):
        r = self.rng
        if not self.crits or r.random() < .12:
            ok, e, _ = self.c("setcrit", "NoCrit", 1)
            if ok:
                self.bad("status", "an unknown criterion was set")
            return
        c = r.choice(self.crits)
        v = R.gen_state(r, c)
        ok, e, _ = self.c("setcrit", c.name, v)
        if not ok:
            self.bad("status", "setting %s failed: %s" % (c.name, e))
        c.state = v
        self.c_get(c)

    def c_get(self, c):
        ok, e, f = self.c("getcrit", c.name)
        if not ok or int(f[0]) != c.state:
            self.bad("criteria", "criterion %s reads %s %s, expected %d" % (c.name, ok, f[0], c.state))
        self.note("criteria read")

    def c_getcrit(self):
        if not self.crits or self.rng.random() < .2:
            ok, e, _ = self.c("getcrit", "NoCrit")
            if ok:
                self.bad("status", "an unknown criterion was read")
        else:
            self.c_get(self.rng.choice(self.crits))

    def c_apply(self):
        self.m_apply(False)
        ok, e, _ = self.c("apply")
        if not ok:
            self.bad("status", "applying failed: " + e)
        self.note("applications")

    def c_bind(self):
        r = self.rng
        if r.random() < .25:
            p = self.bad_path() if r.random() < .6 else r.choice(self.st.nodes).path
            n = self.st.bypath.get(p)
        else:
            n = r.choice(self.st.leaves)
            p = n.path
        want = n is not None and n.is_leaf()
        ok, e, _ = self.c("bind", p)
        if ok != want:
            self.bad("status", "binding %r: %s (%s), expected %s" % (p, ok, e, want))
        if ok:
            self.bound[p] = n
            self.note("parameters bound")
        else:
            self.note("bindings refused")

    def c_unbind(self):
        p = self.rng.choice(sorted(self.bound))
        self.h.call("c", self.cid, "unbind", p)
        del self.bound[p]

    def c_read(self):
        self.read(self.bound[self.rng.choice(sorted(self.bound))])

    def c_write(self):
        r = self.rng
        n = self.bound[r.choice(sorted(self.bound))]
        kind = "string" if isinstance(n.type, Str) or r.random() < .2 else "int"
        if r.random() < .1:
            kind = "int" if kind == "string" else "string"
        v = self.typed_value(n, kind) if isinstance(n.type, Str) or kind == "int" else n.gen_text(r, False, True)
        if kind == "string":
            v = v.replace("\0", "")
        ok, e, _ = self.c("seti" if kind == "int" else "sets", n.path, v)
        what = "C set %s %s %r" % (n.path, kind, v)
        b = None if n.array or not self.is_rogue(n) else self.enc_typed(n, kind, v)
        if b is None:
            self.expect(ok, False, what, e)
            self.note("writes refused")
            return
        n.put(self.mem, b)
        want = self.sync(self.sync_objs(n))
        self.note("writes accepted")
        self.expect(ok, want, what, e)

    def c_start(self):
        g = self.good_criteria()
        ok, e, _ = self.c("start", self.cfg, self.logmode, len(g), *self.criteria_args(g))
        if ok:
            self.bad("status", "a second start succeeds")
        self.note("second starts refused")

def capi(ctx, rng, case, nops=40):
    h = ctx.host()
    k = rng.choice([1, 1, 2, 3])
    ws = []
    made = 0
    w = None
    try:
        for i in range(k):
            w = CWorld(h, random_of(rng), fresh_dir(ctx, "c%d" % i), ctx.out, {}, i + 1, ctx.note, ctx.log)
            w.prepare()
            ws.append(w)
        live = list(ws)
        todo = {x.cid: rng.randint(nops // 3, nops) for x in ws}
        while live:
            w = rng.choice(live)
            w.log.append("== handle %d" % w.cid)
            others = [x for x in live if x is not w]
            if w.state == "new":
                w.begin()
            else:
                w.step_c()
                todo[w.cid] -= 1
            for o in others:
                o.logs(False)
            w.logs(None)
            if todo[w.cid] <= 0:
                if w.state == "on":
                    w.op = "final"
                    w.check_mem()
                w.op = "destroy"
                h.call("c", w.cid, "destroy")
                if h.raw("hw", "hw", w.iid)[1:]:
                    w.bad("alive", "subsystem objects outlive their handle")
                live.remove(w)
                ws.remove(w)
                ctx.note("handles destroyed")
    finally:
        if w is not None:
            ctx.op = w.op
        if ctx._host is not None and h.p.poll() is None:
            for w in ws:
                h.call("c", w.cid, "destroy")

def random_of(rng):
    import random
    return random.Random(rng.random())
