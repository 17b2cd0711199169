"""Histories driven through the Python bindings, each request answered at the same time by the C++ interface."""
import os, random, shutil, glob
from .world import World, Mismatch
from .host import Host, Died, Hang, HarnessError
from .conc import neutral

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/usr/bin/python3"

def runtime():
    l = sorted(glob.glob("/usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.asan-x86_64.so"))
    if not l:
        raise HarnessError("EXCEPTION harness: the address sanitizer's shared runtime is missing")
    return l[-1]

class PyHost(Host):
    def __init__(self, out, scratch, seed):
        Host.__init__(self, [PYTHON, "-B", os.path.join(VERIF, "harness", "pyhost.py"), out,
                             os.path.join(os.path.dirname(out), "pf", "bindings", "python"), str(seed)],
                      scratch, leaks=False, env={"LD_PRELOAD": runtime(), "PYTHONMALLOC": "malloc"})

class Both:
    """A client of the two drivers: same requests, same answers."""
    def __init__(self, py, cc, note):
        self.py, self.cc, self.note = py, cc, note
        self.p, self.rec = py.p, None

    def raw(self, *fields):
        op = fields[0]
        name = fields[2] if op == "api" else op
        try:
            a = self.py.raw(*fields)
        except (Died, Hang) as e:
            try:
                self.cc.raw(*fields)
            except (Died, Hang):
                raise Mismatch("both", "died", str(e))
            raise Mismatch("python", "died", "during %s: %s %s" % (fields, e, getattr(e, "report", "")[:3000]))
        if a[0] == b"E":
            raise Mismatch("python", str(name), a[1].decode("utf-8", "replace"))
        b = self.cc.raw(*fields)
        req = self.cc.trace[-1]
        if op in ("new", "type", "crit", "flag", "start", "setcrit", "getcrit", "critlit", "critvals", "apply", "logs", "api"):
            self.note("answers of the bindings compared")
        elif op != "del":
            self.note("other answers compared")
        if a != b:
            x, y = neutral(req, a), neutral(req, b)
            if op == "logs":
                x, y = sorted(x), sorted(y)
                self.note("log lines", len(x) - 1)
            if x != y:
                raise Mismatch("python", str(name), "%s answers %s through Python, %s through C++" % (fields, a[:40], b[:40]))
        elif op == "logs":
            self.note("log lines", len(a) - 1)
        return a

    def call(self, *fields):
        out = self.raw(*fields)
        return out[0] == b"1", [x.decode("utf-8", "surrogateescape") for x in out[1:]]

    def callb(self, *fields):
        out = self.raw(*fields)
        return out[0] == b"1", out[1:]

def state(ctx):
    s = ctx.__dict__.setdefault("pybind", {})
    if not s:
        ctx.at_end(lambda: end(s))
    return s

def end(s):
    """-> what the sanitizers say of an orderly end"""
    py, s["py"] = s.get("py"), None
    if py is not None:
        try:
            py.close()
        except (Died, Hang) as e:
            return "%s %s" % (e, getattr(e, "report", ""))

def history(ctx, rng, case, nops=60, prof=None):
    s = state(ctx)
    if s.get("py") is not None and s["used"] >= 40:
        late = end(s)
        if late:
            raise Mismatch("python", "exit", late)
    cc = ctx.host()
    if s.get("py") is None:
        s["py"], s["used"] = PyHost(ctx.out, ctx.scratch, case), 0
    s["used"] += 1
    py = s["py"]
    py.raw("seed", "%s" % rng.random())
    d = os.path.join(ctx.scratch, "w")
    shutil.rmtree(d, ignore_errors=True)
    h = Both(py, cc, ctx.note)
    prof = dict(prof)
    mixes = prof.pop("mixes", None)
    if mixes:
        prof.update(rng.choice(mixes))
    w = World(h, rng, d, ctx.out, prof, 1, ctx.note)
    w.log = ctx.log
    try:
        try:
            w.run(rng.randint(nops // 3, nops))
        except Mismatch as e:
            if e.tag.startswith("python:"):
                raise
            raise Mismatch("both", e.tag.replace(":", "-"), e.detail)      # C++ does the same
        if rng.random() < .5:
            more(ctx, rng, h, w)
    finally:
        ctx.op = "python"
        if py.p.poll() is not None:
            py.cleanup()
            s["py"] = None
        else:
            py.raw("hw", "events", 1)
            py.raw("del", 1)
        if cc.p.poll() is not None:
            ctx.drop(False)
        else:
            cc.raw("hw", "events", 1)
            cc.raw("del", 1)

def more(ctx, rng, h, w):
    """What the histories do not ask for."""
    names = [c.name for c in w.crits] + ["nobody"]
    for n in names:
        h.call("critvals", 1, n, *[str(rng.choice([0, 1, 2, 3, 4, 8, -1, 5, 2147483647, -2147483648, rng.randrange(64)])) for _ in range(6)])
        for l in [rng.choice(["", "x", "none", "0x1"])] + [l for c in w.crits for v, l in c.values][:6]:
            h.call("critlit", 1, n, l)
        h.call("getcrit", 1, n)
    # long names, any text
    def text():
        k = rng.choice([1, 3, 40, 130, 300, 1000, 5000])
        return "".join(rng.choice("ab c/_-.é€\U0001F600%{}") for _ in range(k)).strip() or "x"
    d, c, c2 = text(), text(), text()
    leaf = rng.choice(w.st.leaves).path if w.st.leaves else "/test"
    for q in (("setTuningMode", "1"), ("createDomain", d), ("createConf", d, c), ("createConf", d, c2), ("addElem", d, leaf), ("getSeq", d), ("setSeq", d, "1"), ("getSeq", d),
              ("getRule", d, c), ("setRule", d, c, "All{}"), ("getRule", d, c), ("saveConf", d, c), ("restoreConf", d, c2), ("getc", d, c, leaf), ("setc", d, c, leaf, text()), ("set", leaf, text()),
              ("get", leaf), ("renameConf", d, c, text()), ("mapping", leaf), ("mapping", text()), ("exportDomain", "", d, "1", "0"), ("exportDomains", "", "0", "0"),
              ("setElemSeq", d, c2, leaf), ("setTuningMode", "0"), ("setTuningMode", "1"), ("split", d, leaf), ("removeElem", d, leaf), ("deleteDomain", d)):
        if rng.random() < .8:
            h.call("api", 1, *q)
    h.call("hw", "events", 1)
    ok, lines = h.call("logs", 1)
    h.note("long log lines", sum(len(l) > 500 for l in lines))
