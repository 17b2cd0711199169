"""The coverage report: what it counts against what happened."""
import os, re, subprocess
from fractions import Fraction
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr
from . import rules as R
from . import mini as M
from .world import Mismatch
from .host import HarnessError

TOOL = os.environ.get("PF_SRC", "/repo") + "/tools/coverage/coverage.py"
PYTHON = "/usr/bin/python3"

class Refused(Exception):
    pass

# ---------------------------------------------------------------- what the report must say
class Crit:
    def __init__(self, name, inc, states, cur):
        self.name, self.inc, self.states, self.init = name, inc, list(states), list(cur)
        self.n, self.uses, self.cur = 0, dict.fromkeys(states, 0), []
    def put(self, cur, lax=False):
        if not lax and not self.inc and len(cur) != 1:
            raise Refused("incoherent")
        if any(s not in self.uses for s in cur):
            raise Refused("state")
        for s in cur:
            self.uses[s] += 1
        self.cur = list(cur)
        self.n += 1

class Rule:
    """A rule with its number of uses; kids as declared."""
    def __init__(self, src):
        self.src, self.n = src, 0
        self.leaf = isinstance(src, R.Leaf)
        self.kids = [] if self.leaf else [Rule(k) for k in src.kids]
    def name(self):
        return "%s %s %s" % (self.src.crit.name, self.src.verb, self.src.text) if self.leaf else "All" if self.src.all else "Any"
    def order(self, doc):
        return self.kids if doc else [k for k in self.kids if k.leaf] + [k for k in self.kids if not k.leaf]
    def eval(self, crits, doc):
        if self.leaf:
            c = crits.get(self.src.crit.name)
            if c is None:
                raise Refused("rule on unknown criterion")
            want = set(t for t in self.src.text.split("|") if t not in ("", "none", "<none>"))
            have = set(c.cur)
            r = {"Is": have == want, "IsNot": have != want, "Includes": want <= have, "Excludes": not want & have}[self.src.verb]
        elif self.src.all:
            r = all(k.eval(crits, doc) for k in self.order(doc))
        else:
            r = any(k.eval(crits, doc) for k in self.order(doc))
        self.n += r
        return r
    def coverage(self):
        return avg([k.coverage() for k in self.kids]) if self.kids else Fraction(int(self.n > 0))
    def below(self):
        for k in self.kids:
            yield k
            for x in k.below():
                yield x

def avg(l):
    return sum(l, Fraction(0)) / len(l)

class Conf:
    def __init__(self, name, rule):
        self.name, self.rule = name, None if rule is None else Rule(rule)
        self.n, self.root, self.seen = 0, 0, {}
    def coverage(self):
        if self.rule is None:
            return Fraction(int(self.root > 0))
        return avg([x.coverage() for x in [self.rule] + list(self.rule.below())])

class Model:
    """doc: rules are evaluated in the order of the document; otherwise criterion rules come first."""
    def __init__(self, domains, doc):
        self.doms = [(n, [Conf(c, r) for c, r in cs]) for n, cs in domains]
        self.crits, self.doc, self.changes = {}, doc, 0
        self.order = []

    def event(self, e):
        if e[0] == "crit":
            _, name, inc, states, cur = e
            c = Crit(name, inc, states, cur)
            c.put(cur)
            if name in self.crits:
                c = self.crits[name]
                c.put(c.init, True)
                self.changes += 1
            else:
                self.crits[name] = c
                self.order.append(name)
        elif e[0] == "change":
            c = self.crits.get(e[1])
            if c is None:
                raise Refused("unknown")
            try:
                c.put(e[2])
            except Refused as x:
                raise Refused("unknown" if str(x) == "state" else str(x))
            self.changes += 1
        elif e[0] == "apply":
            if not self.crits:
                raise Refused("no criteria")
            cs = [cs for n, cs in self.doms if n == e[1]]
            c = [c for c in cs[0] if c.name == e[2]] if cs else []
            if not c:
                raise Refused("no such configuration")
            c = c[0]
            c.n += 1
            snap = tuple((n, tuple(self.crits[n].cur)) for n in self.order)
            c.seen[snap] = c.seen.get(snap, 0) + 1
            ok = c.rule is None or c.rule.eval(self.crits, self.doc)
            c.root += ok
            if not ok:
                raise Refused("ineligible")

    def play(self, events, ignore):
        for e in events:
            try:
                self.event(e)
            except Refused as x:
                if str(x) not in ignore:
                    raise

# ---------------------------------------------------------------- the report
def pct(t, want):
    """The percentage shown, rounded to a neighbour at worst."""
    m = re.match(r"^(\d+)%$", t or "")
    return bool(m) and abs(int(m.group(1)) - 100 * want) <= Fraction(1, 2) + Fraction(1, 10**6)

class Compare:
    def __init__(self, m):
        self.m = m

    def no(self, what, x, want):
        raise ValueError("%s reported %r, expected %r" % (what, x, want))

    def elem(self, x, tag, name, n, cov, where):
        if x.tag != tag or x.get("Name") != name:
            self.no(where, (x.tag, x.get("Name")), (tag, name))
        if n is not None and x.get("NbUse") != str(n):
            self.no(where + " uses of", x.get("NbUse"), n)
        if cov is not None and not pct(x.get("Coverage"), cov):
            self.no(where + " coverage of", x.get("Coverage"), float(100 * cov))

    def kids(self, x, n, where):
        if len(x) != n:
            self.no(where + " children", [(k.tag, k.get("Name")) for k in x], n)
        return list(x)

    def report(self, root):
        m = self.m
        dn = [sum(c.n for c in cs) for _, cs in m.doms]
        dc = [avg([c.coverage() for c in cs]) if cs else Fraction(int(n > 0)) for n, (_, cs) in zip(dn, m.doms)]
        cn = [m.crits[n] for n in m.order]
        cc = [avg([Fraction(int(c.uses[s] > 0)) for s in c.states]) if c.states else Fraction(int(c.n > 0)) for c in cn]
        dcov = avg(dc) if dc else Fraction(int(sum(dn) > 0))
        ccov = avg(cc) if cc else Fraction(int(m.changes > 0))
        self.elem(root, "CoverageReport", "DomainCoverage", sum(dn) + m.changes, (dcov + ccov) / 2, "report")
        d, c = self.kids(root, 2, "report")
        self.elem(d, "Domains", "Domains", sum(dn), dcov, "domains")
        self.elem(c, "Criteria", "CriterionRoot", m.changes, ccov, "criteria")
        for x, n, cov, (name, cs) in zip(self.kids(d, len(dn), "domains"), dn, dc, m.doms):
            self.elem(x, "ConfigurableDomain", name, n, cov, "domain %s" % name)
            for y, k in zip(self.kids(x, len(cs), "domain %s" % name), cs):
                self.conf(y, k, "%s/%s" % (name, k.name))
        for x, k, cov in zip(self.kids(c, len(cn), "criteria"), cn, cc):
            self.elem(x, "Criterion", k.name, k.n, cov, "criterion %s" % k.name)
            if x.get("Type") != ("Inclusive" if k.inc else "Exclusive"):
                self.no("criterion %s type" % k.name, x.get("Type"), k.inc)
            for y, s in zip(self.kids(x, len(k.states), "criterion %s" % k.name), k.states):
                self.elem(y, "CriterionState", s, k.uses[s], Fraction(int(k.uses[s] > 0)), "state %s of %s" % (s, k.name))

    def conf(self, x, k, where):
        self.elem(x, "Configuration", k.name, k.n, k.coverage(), where)
        r, s = self.kids(x, 2, where)
        self.elem(r, "RootRule", "RootRule", k.root, k.coverage(), where + " root rule")
        for y, q in zip(self.kids(r, int(k.rule is not None), where + " root rule"), [k.rule]):
            self.rule(y, q, where + " rule")
        self.elem(s, "CriterionStates", "CriterionStates", k.n, None, where + " states")
        got = {}
        for y in s:
            # every criterion and value of a combination is used with it; being recorded may count as one use
            n = int(y.get("NbUse"))
            for inner in (set(int(z.get("NbUse")) for z in y), set(int(t.get("NbUse")) for z in y for t in z)):
                if len(inner) > 1 or not inner <= {n, n + 1}:
                    self.no(where + " uses within a combination of", sorted(inner), n)
            snap = tuple((z.get("Name"), tuple(t.get("Name") for t in z)) for z in y)
            if snap in got:
                self.no(where + " states", "%s twice" % (snap,), "once")
            got[snap] = int(y.get("NbUse"))
        if got != k.seen:
            self.no(where + " states", got, k.seen)

    def rule(self, x, q, where):
        self.elem(x, "SelectionCriterionRule" if q.leaf else "CompoundRule", q.name(), q.n, q.coverage(), where)
        # children may be shown by kind or as declared
        for leaf in (True, False):
            xs = [y for y in x if (y.tag == "SelectionCriterionRule") == leaf]
            qs = [k for k in q.kids if k.leaf == leaf]
            if len(xs) != len(qs):
                self.no(where, [(y.tag, y.get("Name")) for y in x], [k.name() for k in q.kids])
            for y, k in zip(xs, qs):
                self.rule(y, k, where + "/" + k.name())

def flat(x, depth=0, top=True):
    """The raw rendering, from the XML one."""
    inner = x.tag == "CriterionStates"
    yield depth, x.get("Name"), x.get("NbUse"), x.get("Coverage")
    for y in x:
        for z in flat(y, depth + 1, False):
            yield z

def compare_raw(text, root):
    lines = [l for l in text.split("\n") if l]
    want = list(flat(root))
    if len(lines) != len(want):
        raise ValueError("%d lines in the raw report, %d elements in the XML one" % (len(lines), len(want)))
    for l, (depth, name, n, cov) in zip(lines, want):
        m = re.match(r"^((?:\|   )*)\|-- (.*) has been used (\d+) time(?: \((\d+%) coverage\))?$", l)
        if not m or len(m.group(1)) != 4 * depth or m.group(2) != name or m.group(3) != n or m.group(4) not in (None, cov):
            raise ValueError("raw report shows %r, expected %r" % (l, (depth, name, n, cov)))

# ---------------------------------------------------------------- running the tool
def tool(ctx, d, settings, log, argv, stdin=False, fmt="--xml"):
    out = os.path.join(d, "report")
    cmd = [PYTHON, "-B", TOOL, settings] + ([] if stdin else [log]) + ([fmt] if fmt else []) + argv + ["-o", out]
    with open(log if stdin else os.devnull, "rb") as i:
        p = subprocess.run(cmd, stdin=i, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=100)
    with open(out, "rb") as f:
        text = f.read().decode("utf-8", "replace")
    return p.returncode, text, p.stderr.decode("utf-8", "replace")

def script(ctx, rng, d, settings, lines, ignore):
    """The same through the shell: rotated logs, lines of other programs, a stand-in for the XSLT processor."""
    tag = "PFW1"
    mixed = []
    for l in lines:
        while rng.random() < .15:
            mixed.append(rng.choice(["PFW2: ", "other "]) + rng.choice(lines))
        mixed.append(tag + ": " + l)
    n = rng.choice([1, 1, 2, 3, 11])
    cuts = sorted(rng.randint(0, len(mixed)) for _ in range(n - 1))
    parts = [mixed[a:b] for a, b in zip([0] + cuts, cuts + [len(mixed)])]
    base = rng.choice(["aplog", "the log"])
    files = []
    for i, part in enumerate(reversed(parts)):          # the newest has no number
        files.append(base + (".%d" % i if i else ""))
        M.put(d, files[-1], "".join(l + "\n" for l in part))
    rng.shuffle(files)
    x = M.put(d, "bin/xsltproc", '#!/bin/sh\n[ "$1" = --output ] && [ -f "$3" ] && [ "$4" = - ] || exit 99\nif [ "$2" = - ]; then exec cat; else exec cat > "$2"; fi\n')
    os.chmod(x, 0o755)
    long = rng.random() < .5
    cmd = ["bash", os.path.dirname(TOOL) + "/aplog2coverage.sh", "--domains" if long else "-d", settings,
           "--regexp" if rng.random() < .5 else "-e", rng.choice(["^" + tag + ":", "(%s|PFW9): " % tag]) if n == 1 else tag + ": "]
    if len(ignore) == len(IGNORE) and rng.random() < .8:
        cmd.append(rng.choice(["-f", "--force"]))
    else:
        for k in ignore:
            cmd += [rng.choice(["-p", "--parser_option"]), IGNORE[k]]
    out = rng.random() < .5
    if out:
        cmd += [rng.choice(["-o", "--output"]), "html"]
    M.put(d, "html", "")
    try:
        p = subprocess.run(cmd + files, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=60,
                           env=dict(os.environ, PATH=os.path.join(d, "bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"), PYTHONDONTWRITEBYTECODE="1"))
    except subprocess.TimeoutExpired:
        raise Mismatch("coverage", "script", "%s does not end" % cmd)
    ctx.log.append("%s %s" % (cmd[2:], files))
    text = p.stdout
    if out:
        if p.stdout.strip():
            raise Mismatch("coverage", "script", "%s prints %r" % (cmd, p.stdout[:200]))
        with open(os.path.join(d, "html"), "rb") as f:
            text = f.read()
    ctx.note("runs of the shell script")
    return p.returncode, text.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")

IGNORE = {"unknown": "--ignore-unknown-criterion", "incoherent": "--ignore-incoherent-criterion-state",
          "ineligible": "--ignore-ineligible-configuration-application"}

def check(ctx, rng, d, domains, settings, lines, events, what):
    log = M.put(d, "pfw.log", "\n".join(lines) + "\n")
    ctx.log += ["%s: %d lines, %d events" % (what, len(lines), len(events))] + [str(e) for e in events]
    ignore = [k for k in sorted(IGNORE) if rng.random() < .3]
    shell = rng.random() < .15
    if shell and rng.random() < .3:
        ignore = sorted(IGNORE)
    stdin = rng.random() < .2
    fmt = rng.choice(["--xml", "--xml", None])
    argv = [IGNORE[k] for k in ignore]
    rng.shuffle(argv)
    models, refused = [], None
    for doc in (True, False):
        m = Model(domains, doc)
        try:
            m.play(events, ignore)
            models.append(m)
        except Refused as x:
            refused = str(x)
    rc, text, err = script(ctx, rng, d, settings, lines, ignore) if shell else tool(ctx, d, settings, log, argv, stdin, fmt)
    if "Traceback" in err and refused is None:
        raise Mismatch("coverage", "died", "%s: %s" % (what, err[-1500:]))
    if not models:
        if rc == 0 or text.strip():
            raise Mismatch("coverage", "accepted", "%s: a log which must be refused (%s) gives status %s and %r" % (what, refused, rc, text[:200]))
        ctx.note("refused: " + refused)
        return
    if rc != 0:
        if refused is not None:
            return
        raise Mismatch("coverage", "refused", "%s: a sound log is refused with status %s: %s" % (what, rc, err[-1500:]))
    try:
        root = ET.fromstring(text.encode("utf-8"))
    except ET.ParseError as x:
        raise Mismatch("coverage", "syntax", "%s: %s in %r" % (what, x, text[:300]))
    first = None
    for m in models:
        try:
            Compare(m).report(root)
            break
        except ValueError as x:
            first = first or str(x)
    else:
        raise Mismatch("coverage", "report", "%s: %s\n%s" % (what, first, text[:2500]))
    ctx.note("reports compared")
    ctx.note("applications counted", sum(c.n for _, cs in m.doms for c in cs))
    ctx.note("criterion changes counted", m.changes)
    if rng.random() < .3:
        rc, raw, err = tool(ctx, d, settings, log, argv, not stdin, "--raw")
        if rc:
            raise Mismatch("coverage", "raw", "%s: status %s: %s" % (what, rc, err[-800:]))
        try:
            compare_raw(raw, root)
        except ValueError as x:
            raise Mismatch("coverage", "raw", "%s: %s" % (what, x))
        ctx.note("raw reports compared")

# ---------------------------------------------------------------- settings
def gen_domains(rng, crits):
    doms = []
    for i in range(rng.choice([1, 1, 2, 2, 3])):
        cs = []
        for j in range(rng.choice([1, 2, 2, 3, 4])):
            r = R.gen_rule(rng, crits, rng.choice([0, 1, 2, 2])) if rng.random() < .93 else None
            cs.append((rng.choice(["c%d", "Conf %d", "C-%d.z"]) % j, r))
        doms.append((rng.choice(["D%d", "Dom.%d", "my domain %d"]) % i, cs))
    return doms

def domains_xml(rng, doms, npar):
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<ConfigurableDomains SystemClassName="test">']
    for i, (name, cs) in enumerate(doms):
        out.append('<ConfigurableDomain Name=%s SequenceAware="%s"><Configurations>' % (quoteattr(name), rng.choice(["true", "false", "false"])))
        for c, r in cs:
            out.append('<Configuration Name=%s>%s</Configuration>' % (quoteattr(c), r.xml() if r else ""))
        out.append('</Configurations><ConfigurableElements><ConfigurableElement Path="/test/s/p%d"/></ConfigurableElements><Settings>' % i)
        for c, r in cs:
            out.append('<Configuration Name=%s><ConfigurableElement Path="/test/s/p%d"><IntegerParameter Name="p%d">%d</IntegerParameter></ConfigurableElement></Configuration>'
                       % (quoteattr(c), i, i, rng.randint(0, 99)))
        out.append("</Settings></ConfigurableDomain>")
    out.append("</ConfigurableDomains>")
    return (rng.choice(["", "\n", "\n  "])).join(out)

def names(c):
    """The state as the list of its values."""
    f = c.formatted()
    return [] if f == "<none>" else f.split("|")

def adopt(doms, text, crits):
    """The same settings with the values of rules spelled as exported."""
    by = {c.name: c for c in crits}
    def one(r, x):
        if isinstance(r, R.Leaf):
            if x.tag != "SelectionCriterionRule" or (x.get("SelectionCriterion"), x.get("MatchesWhen")) != (r.crit.name, r.verb):
                raise ValueError
            l = R.Leaf(r.crit, r.verb, r.text)
            l.text = x.get("Value")
            return l
        if x.tag != "CompoundRule" or len(x) != len(r.kids):
            raise ValueError
        return R.Node(r.all, [one(k, y) for k, y in zip(r.kids, x)])
    root = ET.fromstring(text.encode("utf-8"))
    out = []
    for (n, cs), x in zip(doms, root):
        ys = list(x.find("Configurations"))
        if x.get("Name") != n or [y.get("Name") for y in ys] != [c for c, _ in cs]:
            raise Mismatch("export", "cov", "exported settings name other configurations")
        try:
            out.append((n, [(c, one(r, y[0]) if len(y) else None) for (c, r), y in zip(cs, ys)]))
        except ValueError:
            raise Mismatch("export", "cov", "exported rules differ")
    return out

def spaced(rng, crits):
    """Names of values may hold spaces."""
    for c in crits:
        if rng.random() < .25:
            c.values = [(n, l + " of it" if rng.random() < .5 else l) for n, l in c.values]
            c.lits.update((l, n) for n, l in c.values)

# ---------------------------------------------------------------- logs written by the framework
def real(ctx, rng, case):
    h = ctx.host()
    crits = R.gen_criteria(rng, rng.choice([1, 2, 2, 3, 4]))
    for c in crits:
        if not c.inclusive and rng.random() < .93 and 0 not in [n for n, _ in c.values]:
            c.values[rng.randrange(len(c.values))] = (0, "x0")
            c.lits = dict((l, n) for n, l in c.values)
    spaced(rng, crits)
    doms = gen_domains(rng, crits)
    d = os.path.join(ctx.scratch, "cov")
    struct = M.structure("".join('<IntegerParameter Name="p%d" Size="32"/>' % i for i in range(len(doms))))
    cfg = M.files(d, ctx.out, struct, domains_xml(rng, doms, len(doms)))
    ctx.op = "real"
    ctx.log += [d for d in map(str, [(n, [(c, r and r.txt()) for c, r in cs]) for n, cs in doms])]
    x = M.Mini(h, cfg, 1, [(c.name, c.inclusive, c.values) for c in crits])
    lines, events = [], []
    last = {}
    def flush():
        for t in x.logs():
            lines.extend(t.split("\n"))
    def applied(force):
        if force:
            last.clear()
        for n, cs in doms:
            for c, r in cs:
                if r is not None and r.eval():
                    if last.get(n) != c:
                        last[n] = c
                        events.append(("apply", n, c))
                    break
    try:
        early = []
        if rng.random() < .2:          # criteria may be set before the start
            for c in crits:
                c.state = R.gen_state(rng, c) if c.inclusive else rng.choice(c.values)[0]
                h.call("setcrit", 1, c.name, c.state)
            x.logs()
        # the order of the declarations is the framework's
        ok, e = x.start()
        if not ok:
            raise HarnessError("EXCEPTION harness: coverage start: " + e)
        flush()
        order = [m.group(1) for l in lines for m in [re.match(r".*Criterion name: (.*?), type kind", l)] if m]
        if sorted(order) != sorted(c.name for c in crits):
            raise Mismatch("coverage", "log", "the start declares the criteria %r, expected %r" % (order, [c.name for c in crits]))
        by = {c.name: c for c in crits}
        for n in order:
            c = by[n]
            vals = [l for l in lines if "Criterion name: %s, type kind" % n in l][0]
            sts = re.search(r"states: \{(.*)\}", vals)
            sts = sts.group(1).split(", ") if sts else None
            if sts is None or sorted(s for s in sts if not (c.inclusive and s == "none")) != sorted(l for _, l in c.values):
                raise Mismatch("coverage", "log", "%r for a criterion with values %s" % (vals, c.values))
            events.append(("crit", n, c.inclusive, sts, names(c)))
        applied(True)
        tuning = False
        for _ in range(rng.choice([3, 8, 15, 30])):
            k = rng.random()
            if k < .6:
                for c in rng.sample(crits, rng.randint(1, len(crits))):
                    s = R.gen_state(rng, c) if rng.random() < .1 else rng.choice(c.values)[0] if not c.inclusive else R.gen_state(rng, c) & sum(n for n, _ in c.values)
                    h.call("setcrit", 1, c.name, s)
                    if s != c.state:
                        c.state = s
                        events.append(("change", c.name, names(c)))
            elif k < .92:
                h.call("apply", 1)
                if not tuning:
                    applied(False)
            else:
                x.api("setTuningMode", not tuning)
                tuning = not tuning
                if not tuning:
                    applied(True)
        flush()
        settings = os.path.join(d, "domains.xml")
        if rng.random() < .3:
            ok, t = x.cmd("getDomainsWithSettingsXML") if rng.random() < .5 else x.cmd("getDomainsXML")
            if not ok:
                raise Mismatch("coverage", "log", "settings not given: " + t)
            settings = M.put(d, "exported.xml", t)
            doms = adopt(doms, t, crits)
    finally:
        if h.p.poll() is None:
            x.close()
    if rng.random() < .5:
        pre = rng.choice(["", "I/PFW(%d): ", "[%d] ", "Debug   "])
        lines = [(pre % rng.randint(1, 999) if "%" in pre else pre) + l for l in lines]
    check(ctx, rng, d, doms, settings, lines, events, "log of the framework")

# ---------------------------------------------------------------- logs written here
def noise(rng):
    return rng.choice(["", "Starting", "Criterion name: ", "Applying configurations", "Applied configurations", "states: {", "Selection criterion changed event: ",
                       "W/x: Selection criterion 'C' has been modified 2 time(s) without any configuration application", "Applying configuration",
                       "End of Applying configurations", "Criterion name: Crit0, current", "Mode : 'domain'", "\t", "x" * 300])

def synthetic(ctx, rng, case):
    ctx.op = "synthetic"
    crits = R.gen_criteria(rng, rng.choice([1, 2, 2, 3, 4]))
    spaced(rng, crits)
    doms = gen_domains(rng, crits)
    d = os.path.join(ctx.scratch, "cov")
    M.files(d, ctx.out, "")
    settings = M.put(d, "settings.xml", domains_xml(rng, doms, len(doms)))
    ctx.log += [x for x in map(str, [(n, [(c, r and r.txt()) for c, r in cs]) for n, cs in doms])]
    events, decl = [], []
    def good(c):
        return rng.choice(c.values)[0] if not c.inclusive else R.gen_state(rng, c) & sum(n for n, _ in c.values)
    bad = rng.random() < .35
    q = rng.sample(crits, len(crits))
    if bad and rng.random() < .15:
        q = q[:rng.randrange(len(q) + 1)]
    for c in q:
        c.state = good(c)
        sts = [l for _, l in c.values]
        cur = names(c)
        if bad and rng.random() < .06:
            cur = [] if not c.inclusive else ["nowhere"]
        events.append(("crit", c.name, c.inclusive, sts, cur))
    decl = list(events)
    for _ in range(rng.choice([2, 10, 25, 60])):
        k = rng.random()
        if k < .5:
            c = rng.choice(crits)
            c.state = good(c)
            cur = names(c)
            if bad and rng.random() < .05:
                cur = rng.choice([["nowhere"], []]) if not c.inclusive else ["nowhere"]
                # the simulated state stays
            events.append(("change", c.name if not (bad and rng.random() < .03) else "Nobody", cur))
        elif k < .95:
            n, cs = rng.choice(doms)
            ok = [c for c, r in cs if r is None or r.eval()]
            if bad and rng.random() < .06:
                c = rng.choice(cs)[0] if rng.random() < .7 else "nothing"
                n = n if rng.random() < .8 else "nowhere"
            elif ok:
                c = rng.choice(ok)
            else:
                continue
            events.append(("apply", n, c))
        elif decl and rng.random() < .4:
            for e in decl:             # the framework was started again
                events.append(e)
                for c in crits:
                    if c.name == e[1]:
                        c.state = sum(n for n, l in c.values if l in e[4]) if c.inclusive else ([n for n, l in c.values if l in e[4]] or [c.state])[0]
    lines = []
    for e in events:
        while rng.random() < .2:
            lines.append(noise(rng))
        show = lambda l: "|".join(l) or "<none>"
        if e[0] == "crit":
            t = "Criterion name: %s, type kind: %s, current state: %s, states: {%s}" % (e[1], "inclusive" if e[2] else "exclusive", show(e[4]), ", ".join(e[3]))
        elif e[0] == "change":
            t = "Selection criterion changed event: Criterion name: %s, current state: %s" % (e[1], show(e[2]))
        else:
            t = "Applying configuration '%s' from domain '%s'" % (e[2], e[1])
        lines.append(rng.choice(["", "", "12:00 I/PFW : ", "    ", "(x): "]) + t)
    check(ctx, rng, d, doms, settings, lines, events, "log made up")
