"""Selection criteria: what they accept, tell and announce, against what the client declared and set."""
import os, re
import xml.etree.ElementTree as ET
from . import mini as M
from .world import Mismatch

MIN, MAX = -(1 << 31), (1 << 31) - 1

def i32(v):
    return (v + (1 << 31)) % (1 << 32) - (1 << 31)

class Kind:
    def __init__(self, inc):
        self.inc = inc
        self.lits = {"none": 0} if inc else {}

    def accepts(self, num, lit):
        if self.inc and (bin(num & 0xFFFFFFFF).count("1") != 1):
            return False
        return lit not in self.lits and num not in self.lits.values()

    def name_of(self, num):
        for l, n in self.lits.items():
            if n == num:
                return l
        return None

    def number_of(self, text):
        """None when the text names no value."""
        if not self.inc:
            return self.lits.get(text)
        v = 0
        for t in text.split("|"):
            if t:
                if t not in self.lits:
                    return None
                v |= self.lits[t]
        return i32(v & 0xFFFFFFFF)

    def shown(self, state):
        if not self.inc:
            return self.name_of(state) or "<none>"
        return "|".join(l for l in (self.name_of(i32(1 << b)) for b in range(32) if state & (1 << b)) if l) or "<none>"

class Crit:
    def __init__(self, name, kind):
        self.name, self.kind, self.state, self.changes = name, kind, 0, 0

NUMS = [0, 1, 2, 4, 8, 3, 5, -1, -2, 16, 1 << 30, MIN, MAX, 0x60000000, 0x80, 0x101, 7, 1 << 16, MIN + 1]
LITS = ["a", "b", "A", "none", "None", "x y", "v.1", "-1", "0", "a b", "<none>", "é", "long" * 20, "&<", "{q}", "one", "two", "three", "a;b", "a=b", "Is", "c", "d", "e"]

STRUCT = '<BooleanParameter Name="p"/>'
DOMAINS = ('<ConfigurableDomains SystemClassName="test"><ConfigurableDomain Name="d"><Configurations><Configuration Name="c"><CompoundRule Type="All"/></Configuration></Configurations>'
           '<ConfigurableElements><ConfigurableElement Path="/test/s/p"/></ConfigurableElements><Settings><Configuration Name="c"><ConfigurableElement Path="/test/s/p">'
           '<BooleanParameter Name="p">1</BooleanParameter></ConfigurableElement></Configuration></Settings></ConfigurableDomain></ConfigurableDomains>')

class Run:
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.h = ctx, rng, ctx.host()
        d = os.path.join(ctx.scratch, "crit")
        self.x = M.Mini(self.h, M.files(d, ctx.out, M.structure(STRUCT), DOMAINS if rng.random() < .8 else None))
        self.kinds, self.crits, self.tuning, self.started = {}, [], False, False
        self.expected = []         # announcements and warnings

    def bad(self, aspect, text):
        raise Mismatch(self.ctx.op, aspect, text)

    def call(self, *a):
        ok, f = self.h.call(*a)
        self.ctx.log.append("%s -> %s %s" % (a, ok, f))
        return ok, f

    # -- declarations
    def offer(self, name, first):
        r, k = self.rng, self.kinds[name]
        pairs = []
        for _ in range(r.choice([0, 1, 2, 4, 6, 9, 34 if k.inc and r.random() < .3 else 3]) if first else r.randint(1, 4)):
            c = r.random()
            num = r.choice(list(k.lits.values()) or [1]) if c < .08 else r.choice(NUMS) if c < .45 else i32(1 << r.randrange(32)) if k.inc or c < .6 else r.randint(-5, 20)
            lit = r.choice(list(k.lits) or ["a"]) if r.random() < .1 else r.choice(LITS) if r.random() < .6 else "v%d" % r.randint(0, 60)
            pairs.append((num, lit))
            if k.accepts(num, lit):
                k.lits[lit] = num
                pairs[-1] += (True,)
            else:
                pairs[-1] += (False,)
        self.ctx.op = "declare"
        ok, f = self.call(*(["type", 1, name, k.inc] if first else ["pair", 1, name]) + [x for p in pairs for x in p[:2]])
        if not ok or len(f) != 2 * len(pairs):
            self.bad("status", "declaring values answers %s %s" % (ok, f))
        for (num, lit, want), got, err in zip(pairs, f[::2], f[1::2]):
            if (got == "1") != want:
                self.bad("accepted" if got == "1" else "refused", "value %r = %d of an %s criterion is %s; the others are %s"
                         % (lit, num, "inclusive" if k.inc else "exclusive", "accepted" if got == "1" else "refused: " + err, k.lits))
            if not want and not err.strip():
                self.bad("error", "value %r = %d is refused without a reason" % (lit, num))
            if want and err:
                self.bad("error", "value %r = %d is accepted with the error %r" % (lit, num, err))
            self.ctx.note("values accepted" if want else "values refused")

    def create(self, name, kind):
        self.ctx.op = "create"
        ok, _ = self.call("crit", 1, name, kind)
        if not ok:
            self.bad("status", "criterion %s is not created" % name)
        self.crits.append(Crit(name, self.kinds[kind]))

    # -- use
    def put(self, c):
        r = self.rng
        q = r.random()
        if q < .15:
            v = c.state
        elif q < .6 and c.kind.lits:
            v = 0
            for n in r.sample(list(c.kind.lits.values()), r.randint(1, len(c.kind.lits)) if c.kind.inc else 1):
                v = v | n if c.kind.inc else n
        else:
            v = r.choice(NUMS) if r.random() < .6 else r.randint(MIN, MAX)
        self.ctx.op = "setcrit"
        self.call("setcrit", 1, c.name, v)
        if v != c.state:
            c.state = v
            self.expected.append("ISelection criterion changed event: Criterion name: %s, current state: %s" % (c.name, c.kind.shown(v)))
            if c.changes:
                self.expected.append("WSelection criterion '%s' has been modified %d time(s) without any configuration application" % (c.name, c.changes))
            c.changes += 1
            self.ctx.note("changes")
        else:
            self.ctx.note("states set again")

    def get(self, c):
        self.ctx.op = "getcrit"
        ok, f = self.call("getcrit", 1, c.name)
        if not ok or f != [str(c.state), c.name, c.kind.shown(c.state)]:
            self.bad("state", "%s is told as %s, expected %s" % (c.name, f, (c.state, c.kind.shown(c.state))))
        self.ctx.note("states read")

    def names(self, c):
        r = self.rng
        self.ctx.op = "critlit"
        pool = list(c.kind.lits) + LITS[:6]
        t = "|".join(r.choice(pool) for _ in range(r.choice([1, 1, 1, 2, 3, 5])))
        if r.random() < .1:
            t = r.choice(["", "|", t + "|", "|" + t, t.replace("|", "||"), t.upper(), " " + t, t + " "])
        want = c.kind.number_of(t)
        ok, f = self.call("critlit", 1, c.name, t)
        if ok != (want is not None) or ok and f[0] != str(want):
            self.bad("number", "%r of %s is translated into %s, expected %s; its values are %s" % (t, c.name, f[0] if ok else "nothing", want, c.kind.lits))
        self.ctx.note("names translated")
        self.ctx.op = "critvals"
        ns = [r.choice(list(c.kind.lits.values()) or [0]) if r.random() < .6 else r.choice(NUMS) for _ in range(r.randint(0, 6))]
        ok, f = self.call("critvals", 1, c.name, *ns)
        want = ["1" if c.kind.inc else "0"]
        for n in ns:
            l = c.kind.name_of(n)
            want += ["0", ""] if l is None else ["1", l]
        if not ok or f != want:
            self.bad("name", "the numbers %s of %s are translated into %s, expected %s" % (ns, c.name, f, want))
        self.ctx.note("numbers translated", len(ns))

    def values(self, t, c):
        """A set of values in any order; names may hold the separator."""
        want = list(c.kind.lits)
        if len(t) != len(", ".join(want)):
            return False
        def go(rest, left):
            if not left:
                return rest == ""
            for l in sorted(left, key=len, reverse=True):
                if rest == l or rest.startswith(l + ", "):
                    if go(rest[len(l) + 2:], left - {l}):
                        return True
            return False
        return go(t, set(want)) if len(want) < 12 else sorted(t.split(", ")) == sorted(want)

    def listing(self):
        r = self.rng
        self.ctx.op = "listCriteria"
        k = r.choice(["", "CSV", "csv", "XML", "xml"])
        ok, f = self.call("cmd", 1, "listCriteria", *([k] if k else []))
        t = f[0]
        if not ok:
            self.bad("status", "criteria are not listed: " + t)
        left = list(self.crits)
        if k.upper() == "XML":
            try:
                es = list(ET.fromstring(t.encode("utf-8", "surrogateescape")))
            except ET.ParseError as e:
                self.bad("xml", "%s in %r" % (e, t[:300]))
            if len(es) != len(left):
                self.bad("xml", "%d criteria are listed, there are %d" % (len(es), len(left)))
            for e, c in zip(sorted(es, key=lambda e: e.get("Name")), sorted(left, key=lambda c: c.name)):
                got = (e.get("Name"), e.get("Kind"), e.get("Value"), sorted((v.get("Literal"), v.get("Numerical")) for v in e))
                want = (c.name, "Inclusive" if c.kind.inc else "Exclusive", c.kind.shown(c.state), sorted((l, str(n)) for l, n in c.kind.lits.items()))
                if got != want:
                    self.bad("xml", "listed as %s, expected %s" % (got, want))
        elif k:
            ls = [l for l in t.split("\n") if l]
            if len(ls) != len(left):
                self.bad("csv", "%d criteria are listed, there are %d" % (len(ls), len(left)))
            for c in left:
                pre = "Criterion name: %s, type kind: %s, current state: %s, states: {" % (c.name, "inclusive" if c.kind.inc else "exclusive", c.kind.shown(c.state))
                if not any(l.startswith(pre) and l.endswith("}") and self.values(l[len(pre):-1], c) for l in ls):
                    self.bad("csv", "no line tells %r and its values %s: %s" % (pre, list(c.kind.lits), ls))
        else:
            t += "\n"
            for c in left:
                pre = "\n%s:\n%s\nPossible states (%s): {" % (c.name, "=" * (len(c.name.encode()) + 1), "Inclusive" if c.kind.inc else "Exclusive")
                post = "}\nCurrent state = %s\n" % c.kind.shown(c.state)
                at = t.find(pre)
                end = t.find(post, at)
                if at < 0 or end < 0 or not self.values(t[at + len(pre):end], c):
                    self.bad("human", "%r is not told with its values %s: %r" % (c.name, list(c.kind.lits), t))
            if t.count("Possible states") != len(left):
                self.bad("human", "%d criteria are told, there are %d" % (t.count("Possible states"), len(left)))
        self.ctx.note("listings")

    def start(self):
        self.ctx.op = "start"
        ok, e = self.x.start()
        self.ctx.log.append("start -> %s %s" % (ok, e))
        if not ok:
            self.bad("status", "start failed: " + e)
        self.started = True
        self.applied()

    def applied(self):
        for c in self.crits:
            c.changes = 0

    def heard(self):
        """Each actual change announced once, in order, with its warning."""
        self.ctx.op = "log"
        ls = [l for l in self.x.logs() if l.startswith(("ISelection criterion changed", "WSelection criterion", "WSelection Criterion", "ISelection criterion '"))]
        if ls != self.expected:
            i = next((i for i, (a, b) in enumerate(zip(ls, self.expected)) if a != b), min(len(ls), len(self.expected)))
            self.bad("announced", "message %d is %s, expected %s" % (i, ls[i:i + 1], self.expected[i:i + 1]))
        self.ctx.note("messages", len(ls))
        self.expected = []

def criteria(ctx, rng, case):
    ctx.op = "new"
    w = Run(ctx, rng)
    try:
        for i in range(rng.choice([1, 1, 2, 3])):
            n = "k%d" % i
            w.kinds[n] = Kind(rng.random() < .55)
            w.offer(n, True)
        for i in range(rng.choice([1, 2, 3, 5])):
            w.create(rng.choice(["Crit%d", "C.%d-x", "%d"]) % i, rng.choice(list(w.kinds)))
        early = rng.random() < .4
        for _ in range(rng.randint(0, 8) if early else 0):
            c = rng.choice(w.crits)
            rng.choice([w.put, w.put, w.get, w.names])(c)
        if rng.random() < .2:
            w.offer(rng.choice(list(w.kinds)), False)
        if early and rng.random() < .5:
            w.heard()
        w.start()
        w.heard()
        for _ in range(rng.choice([10, 25, 50])):
            c = rng.choice(w.crits)
            q = rng.random()
            if q < .4:
                w.put(c)
            elif q < .55:
                w.get(c)
            elif q < .7:
                w.names(c)
            elif q < .78:
                w.listing()
            elif q < .88:
                ctx.op = "apply"
                w.call("apply", 1)
                if not w.tuning:
                    w.applied()
            elif q < .93:
                ctx.op = "tuning"
                w.tuning = not w.tuning
                ok, t = w.x.api("setTuningMode", w.tuning)
                if not ok:
                    w.bad("status", "tuning mode: " + t)
                if not w.tuning:
                    w.applied()
                ctx.log.append("tuning %s" % w.tuning)
            elif q < .95:
                w.offer(rng.choice(list(w.kinds)), False)
            elif q < .97:
                ctx.op = "getcrit"
                n = rng.choice(["Nobody", "", c.name + "x", c.name[:-1], "/" + c.name])
                if n not in [x.name for x in w.crits]:
                    ok, f = w.call("getcrit", 1, n)
                    if ok:
                        w.bad("unknown", "there is a criterion %r" % n)
            else:
                w.heard()
        for c in w.crits:
            w.get(c)
        w.listing()
        w.heard()
        ctx.note("histories")
    finally:
        if w.h.p.poll() is None:
            w.x.close()
