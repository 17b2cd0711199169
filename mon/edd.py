"""P27: the settings generator (tools/xmlGenerator) against the settings its inputs describe."""
import os, re, json, glob, shlex, shutil, subprocess, select, itertools, atexit
import xml.etree.ElementTree as ET
from .world import Mismatch, write_files
from .structgen import Gen
from .special import fresh_dir
from .mini import Mini
from .host import san_env, Died
from . import rules as R

TOOL = os.environ.get("PF_SRC", "/repo") + "/tools/xmlGenerator"
SCHEMAS = os.environ.get("PF_SRC", "/repo") + "/schemas"

# ------------------------------------------------------------------ the tool
class Driver:
    """One Jython process which runs the tool of the tree under test again and again."""
    def __init__(self, scratch, out):
        self.dir = os.path.join(scratch, "tool")
        self.tmp = os.path.join(scratch, "tooltmp")
        for x in (self.dir, self.tmp):
            shutil.rmtree(x, ignore_errors=True)
            os.makedirs(x)
        for f in glob.glob(TOOL + "/*.py"):
            shutil.copy(f, self.dir)
        self.san = os.path.join(scratch, "gensan")
        env = san_env(self.san)
        env["PATH"] = os.path.join(out, "..", "pf", "bin") + ":" + env["PATH"]
        env["LC_ALL"] = "C.UTF-8"
        env["JAVA_TOOL_OPTIONS"] = "-Xmx400m -XX:+UseSerialGC -XX:TieredStopAtLevel=1"
        self.p = subprocess.Popen(["jython", "-B", os.path.join(os.path.dirname(__file__), "gendrv.py"), self.dir, self.tmp],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=self.tmp, bufsize=0)
        self.out = out

    def run(self, argv, d, tool="domainGenerator.py"):
        """-> status, output, errors"""
        o, e = os.path.join(d, "gen.out"), os.path.join(d, "gen.err")
        self.p.stdin.write(json.dumps({"argv": argv, "out": o, "err": e, "tool": tool}).encode() + b"\n")
        ok, _, _ = select.select([self.p.stdout], [], [], 180)
        line = self.p.stdout.readline() if ok else b""
        if not line:
            self.close()
            if not ok:
                raise Mismatch("gen", "hang", "the generator does not end: %r" % argv)
            raise RuntimeError("the Jython driver ended")
        r = json.loads(line)
        logs = sorted(glob.glob(self.san + "*"))
        txt = "".join(open(x, errors="replace").read()[:3000] for x in logs)
        for x in logs:
            os.unlink(x)
        err = open(e, errors="replace").read()
        if txt:
            raise Mismatch("gen", "died", "sanitizer report in the generator: %s\n%s" % (txt, err[-600:]))
        return r["rc"], open(o, "rb").read(), err

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()

_driver = {}
def driver(ctx):
    d = _driver.get(ctx.scratch)
    if d is not None and d.p.poll() is None and d.out == ctx.out:
        return d
    if d is not None:
        d.close()
    d = _driver[ctx.scratch] = Driver(ctx.scratch, ctx.out)
    ctx.at_end(d.close)
    return d

# ------------------------------------------------------------------ the language
class G:
    """domainGroup, domain, confGroup, confType or conf"""
    def __init__(self, kind, name, seq=False):
        self.kind, self.name, self.seq = kind, name, seq
        self.rules, self.kids, self.items = [], [], []      # items: (path, value) or (prefix, [items])

    def lines(self, rng, depth=0):
        tag = {"dgroup": ["domainGroup", "domainGroup", "supDomain"], "cgroup": ["confGroup", "confGroup", "supConf"],
               "ctype": ["confType"], "domain": ["domain"], "conf": ["conf"]}[self.kind]
        out = [(depth, rng.choice(tag) + rng.choice(["", "", " "]) + ":" + rng.choice([" ", " ", "", "  "]) + self.name
                + (rng.choice([" ", " ", "  "]) + "sequenceAware" if self.seq else ""))]
        rl = [l for r in self.rules for l in [rule_lines(r, rng, depth + 1)]]
        types = [k for k in self.kids if k.kind == "ctype"]
        rest = [k for k in self.kids if k.kind != "ctype"]
        parts = [k.lines(rng, depth + 1) for k in rest] + [item_lines(i, rng, depth + 1) for i in self.items]
        # configuration types come before what refers to them; a rule concerns the whole of its parent
        parts = [k.lines(rng, depth + 1) for k in types] + parts
        late = rng.random() < .2
        for l in (rl if not late else []):
            out += l
        for p in parts:
            out += p
        for l in (rl if late else []):
            out += l
        return out

def rule_lines(r, rng, depth):
    if isinstance(r, R.Node):
        out = [(depth, "ALL" if r.all else "ANY")]
        for k in r.kids:
            out += rule_lines(k, rng, depth + 1)
        return out
    return [(depth, r.txt(rng))]

def item_lines(i, rng, depth):
    p, v = i
    if isinstance(v, list):
        out = [(depth, "component" + rng.choice(["", " "]) + ":" + rng.choice([" ", " ", ""]) + p)]
        for x in v:
            out += item_lines(x, rng, depth + 1)
        return out
    s = rng.choice([" = ", " = ", "=", "= ", " =", "  =  "])
    return [(depth, p + s + v)]

def flat(items, prefix=None):
    for p, v in items:
        q = p if prefix is None else prefix + "/" + p
        if isinstance(v, list):
            for x in flat(v, q):
                yield x
        else:
            yield q, v

def text(rng, roots):
    lines = [l for g in roots for l in g.lines(rng)]
    out = []
    for d, t in lines:
        while rng.random() < .12:
            out.append(rng.choice(["", "\t" * rng.randint(0, d + 2), "\t" * rng.randint(0, d + 2) + "# " + rng.choice(["note", "conf: x", "/a = b", "ANY"]), "\t  ", " "]))
        out.append("\t" * d + t + rng.choice(["", "", "", " ", "\t"]))
    return out

# what an EDD file asks for, as commands
def compile_domain(g, names, seq, rules, types, out):
    names = names + [g.name]
    seq = seq or g.seq
    rules = rules + g.rules
    types = types + [k for k in g.kids if k.kind == "ctype"]
    if g.kind == "dgroup":
        for k in g.kids:
            if k.kind != "ctype":
                compile_domain(k, names, seq, rules, types, out)
        return
    name = ".".join(names)
    confs = []
    for k in g.kids:
        if k.kind != "ctype":
            compile_conf(k, [], rules, types, confs)
    cmds = [("createDomain", name)]
    if seq:
        cmds.append(("setSequenceAwareness", name, "true"))
    if confs:
        cmds += [("addElement", name, p) for p, _ in confs[0][2]]
    for n, r, it in confs:
        cmds.append(("createConfiguration", name, n))
        cmds.append(("setRule", name, n, R.Node(True, r).txt()))
        if seq:
            cmds.append(("setElementSequence", name, n) + tuple(p for p, _ in it))
        cmds += [("setConfigurationParameter", name, n, p, v) for p, v in it]
    out.append((name, [sorted(p for p, _ in it) for n, r, it in confs], cmds))

def compile_conf(g, names, rules, types, out):
    names = names + [g.name]
    # the rules of every configuration type of this name apply here (to all of a group)
    rules = rules + [r for t in types if t.name == g.name for r in t.rules] + g.rules
    if g.kind == "conf":
        out.append((".".join(names), rules, list(flat(g.items))))
        return
    types = types + [k for k in g.kids if k.kind == "ctype"]
    for k in g.kids:
        if k.kind != "ctype":
            compile_conf(k, names, rules, types, out)

# ------------------------------------------------------------------ generation of inputs
BAD_END = tuple(chr(0xdc80 + i - 0x80) for i in range(0x80, 0x100))
def usable(v):
    """a value an EDD line can hold"""
    return v == v.strip() and not any(ord(c) < 32 and c != "\t" for c in v) and all(ord(c) < 0x80 or ord(c) in (0xe9, 0x2714) for c in v[:1] + v[-1:])

def value(rng, n, valid=True):
    for _ in range(30):
        v = n.gen_text(rng, False, valid)
        if v is not None and usable(v):
            return v
    return "1"

class Source:
    def __init__(self, rng, st, crits):
        self.rng, self.st, self.crits = rng, st, crits
        self.n = 0
        self.blank = False
        self.errors = rng.choice([0, 0, 0, .03, .1])

    def name(self, p):
        self.n += 1
        r = self.rng.random()
        if r < .05:
            return rng_name(self.rng, p, self.n)
        return "%s%d" % (p, self.n)

    def rule(self, top=True):
        r = self.rng
        if not self.crits:
            return None
        if r.random() < self.errors:
            return R.Leaf(R.Criterion("NoSuch", False, [(0, "a")]), "Is", "a")
        return R.gen_rule(r, self.crits, r.choice([0, 1, 2]), False) if r.random() < .4 else R.gen_leaf(r, self.crits)

    def rules(self, p):
        out = []
        while self.rng.random() < p and self.crits and len(out) < 3:
            out.append(self.rule())
        return out

    def ctypes(self, names):
        out = []
        for n in names:
            if self.rng.random() < .25:
                t = G("ctype", n)
                t.rules = self.rules(.7)
                out.append(t)
        return out

    def items(self, leaves):
        """The assignments of one configuration, in any order and grouping."""
        r = self.rng
        leaves = list(leaves)
        if r.random() < .4:
            r.shuffle(leaves)
        def val(p):
            if p not in self.st.by:
                return "1"
            n = self.st.by[p]
            if not n.is_leaf():
                return "1"
            return value(r, n, r.random() >= self.errors)
        def group(paths, prefix):
            out, k = [], 0
            while k < len(paths):
                p = paths[k]
                rel = p if prefix is None else p[len(prefix) + 1:]
                parts = rel.split("/")
                top = 2 if prefix is None else 1
                if len(parts) > top and r.random() < .5:
                    c = "/".join(parts[:r.randint(top, len(parts) - 1)])
                    full = c if prefix is None else prefix + "/" + c
                    run = [p]
                    while k + len(run) < len(paths) and paths[k + len(run)].startswith(full + "/") and r.random() < .8:
                        run.append(paths[k + len(run)])
                    out.append((c, group(run, full)))
                    k += len(run)
                else:
                    out.append((rel, val(p)))
                    k += 1
            return out
        return group(leaves, None)

    def confs(self, parent, leaves, names, depth):
        r = self.rng
        used = set()
        for _ in range(r.choice([1, 1, 2, 3]) if depth else r.choice([0, 1, 2, 2, 3, 4])):
            if depth < 2 and r.random() < .3:
                g = G("cgroup", self.name("g"))
                if r.random() < .06 and not self.blank:     # (a second one would be told apart from a type by its keyword only)
                    g.name, self.blank = "", True
                if g.name in used:
                    continue
                used.add(g.name)
                g.rules = self.rules(.5)
                g.kids = self.ctypes(names)
                self.confs(g, leaves, names, depth + 1)
            else:
                n = r.choice(names) if r.random() < .7 else self.name("c")
                if n in used and r.random() >= self.errors:
                    continue
                used.add(n)
                g = G("conf", n)
                g.rules = self.rules(.6)
                g.items = self.items(leaves)
            parent.kids.append(g)

    def domain(self, pool, depth=0):
        r = self.rng
        names = ["on", "off", "low end", "c.d", "é"][:r.randint(1, 5)]
        if depth < 2 and r.random() < (.25 if depth else .35):
            g = G("dgroup", self.name("G"), r.random() < .2)
            g.kids = self.ctypes(names)
            for _ in range(r.choice([1, 2, 2, 3])):
                g.kids.append(self.domain(pool, depth + 1))
        else:
            g = G("domain", self.name("D"), r.random() < .35)
            k = min(len(pool), r.choice([0, 1, 2, 3, 5, 8]))
            leaves = [pool.pop() for _ in range(k)]
            if r.random() < self.errors:
                leaves.append(r.choice(["/test/nosuch", "/test/s0/no/such"]))
            if r.random() < self.errors and k:
                leaves.append(leaves[0])
            if r.random() < self.errors:
                leaves.append(r.choice(self.st.leaves).path)       # perhaps of another domain too
            g.kids = self.ctypes(names)
            if leaves:
                self.confs(g, leaves, names, 0)
        g.rules = self.rules(.35)
        return g

def rng_name(rng, p, n):
    return rng.choice(["%s.%d", "%s-%d", "é%s%d", "<%s&%d>", '"%s\'%d', "domain%s%d", "ANY%s%d"]) % (p, n)

# ------------------------------------------------------------------ criteria files
def criteria_text(rng, crits):
    out = []
    for c in crits:
        sp = lambda: rng.choice([" ", " ", "  ", "\t"])
        out.append(("Inclusive" if c.inclusive else "Exclusive") + "Criterion" + sp() + c.name + rng.choice([" ", " ", "", "\t"]) + ":" + rng.choice([" ", " ", "", "\t"])
                   + sp().join(l for _, l in c.values))
    return out

def make_criteria(rng):
    out = []
    for i in range(rng.choice([0, 1, 2, 3, 4])):
        inc = rng.random() < .5
        k = rng.randint(1, 5) if rng.random() < .93 else rng.choice([31, 31, rng.randint(20, 31)])
        vals = [(1 << b if inc else b, "v%d" % b if rng.random() < .9 else "v.%d-x" % b) for b in range(k)]
        name = rng.choice(["Crit%d", "Crit%d", "Crit%d", "ANYof%d", "ALLOW%d", "C_%d.z", "Is%d", "conf%d"]) % i
        out.append(R.Criterion(name, inc, vals))
    return out

# ------------------------------------------------------------------ documents, up to what they mean
def canon_doc(t, crits, unordered=()):
    root = ET.fromstring(t)
    out = []
    if root.tag != "ConfigurableDomains":
        raise ValueError("root " + root.tag)
    for d in root:
        confs, elems, setts = [], [], []
        seq = d.get("SequenceAware") == "true"
        for c in d.find("Configurations"):
            kids = list(c)
            confs.append((c.get("Name"), truth(R.key_from_xml(kids[0], crits), crits) if kids else None))
        for e in d.find("ConfigurableElements"):
            elems.append(e.get("Path"))
        s = d.find("Settings")
        for c in (s if s is not None else []):
            v = [(e.get("Path"), tuple((x.tag, tuple(sorted(x.attrib.items())), (x.text or "") if not len(x) else "") for x in e.iter())) for e in c]
            setts.append((c.get("Name"), tuple(v if seq and d.get("Name") not in unordered else sorted(v))))
        out.append((d.get("Name"), seq, confs, sorted(elems), setts, sorted(d.attrib.items())))
    return out

def truth(key, crits):
    """where a rule holds, as a hashable"""
    used = set()
    def names(k):
        if k[0] in ("All", "Any"):
            for x in k[1:]:
                names(x)
        else:
            used.add(k[0])
    names(key)
    by = {c.name: c for c in crits}
    if not used <= set(by):
        return ("unreadable", key)
    # per criterion, the values which matter: those named by the rule, and one more
    dom = {}
    for u in used:
        vals = set([0])
        def coll(k):
            if k[0] in ("All", "Any"):
                for x in k[1:]:
                    coll(x)
            elif k[0] == u:
                vals.add(k[2])
        coll(key)
        if by[u].inclusive:
            bits = [b for b in range(31) if any(v >> b & 1 for v in vals)]
            if len(bits) <= 8:
                vals = [sum(1 << b for b in s) for n in range(len(bits) + 1) for s in itertools.combinations(bits, n)]
            else:
                vals = sorted(set(v ^ w for v in vals for w in [0] + [1 << b for b in bits]))
            vals += [1 << b for b in range(31) if b not in bits][:1]
        else:
            vals = sorted(vals) + [99]
        dom[u] = vals
    order = sorted(used)
    n = 1
    for u in order:
        n *= len(dom[u])
    if n > 6000:
        import random
        g = random.Random(repr(dom))
        combos = [tuple(g.choice(dom[u]) for u in order) for _ in range(3000)]
    else:
        combos = itertools.product(*[dom[u] for u in order])
    combos = list(combos)
    def ev(k, s):
        if k[0] == "All":
            return all(ev(x, s) for x in k[1:])
        if k[0] == "Any":
            return any(ev(x, s) for x in k[1:])
        a, v = s[k[0]], k[2]
        return {"Is": a == v, "IsNot": a != v, "Includes": (a & v) == v, "Excludes": (a & v) == 0}[k[1]]
    holds = frozenset(c for c in combos if ev(key, dict(zip(order, c))))
    if not holds:
        return "never"
    if len(holds) == len(set(combos)):
        return "always"
    return (tuple(order), holds)

# ------------------------------------------------------------------ one run
class NoStart(Exception):
    pass

def put(d, name, lines, rng=None, end=True):
    p = os.path.join(d, name)
    t = "\n".join(lines) + ("\n" if end else "")
    with open(p, "wb") as f:
        f.write(t.encode("utf-8", "surrogateescape"))
    return p

def settings_inputs(ctx, rng, d, src, pool, cfg, crits):
    """Writes initial settings and single domain files with the framework itself -> (initial, [single])"""
    g = Source(rng, src.st, crits)
    g.errors, g.n = 0, 5000
    roots = [g.domain(pool) for _ in range(rng.choice([1, 2, 3]))]
    doms = []
    for x in roots:
        compile_domain(x, [], False, [], [], doms)
    m = reference(ctx, cfg, crits)
    try:
        for _, _, cmds in doms:
            for c in cmds:
                m.cmd(*c)
        names = [n for n, _, _ in doms]
        single = [n for n in names if rng.random() < .5]
        files = []
        for i, n in enumerate(single):
            p = os.path.join(d, "single%d.xml" % i)
            ok, e = m.cmd("exportDomainWithSettingsXML", n, p)
            if not ok:
                raise Mismatch("gen", "export", "cannot export %s: %s" % (n, e))
            files.append(p)
            m.cmd("deleteDomain", n)
        init = os.path.join(d, "initial.xml")
        ok, e = m.cmd("exportDomainsWithSettingsXML", init)
        if not ok:
            raise Mismatch("gen", "export", "cannot export the domains: %s" % e)
    finally:
        m.close()
    return (init if rng.random() < .8 else None), files

def reference(ctx, cfg, crits, validate=False):
    m = Mini(ctx.host(), cfg, 1, [(c.name, c.inclusive, c.values) for c in crits])
    m.flag("missing", "0")
    m.flag("settings", "0")
    if validate:
        m.flag("schema", SCHEMAS)
        m.flag("validate", "1")
    ok, e = m.start()
    if not ok:
        m.close()
        raise NoStart("reference instance does not start: " + e)
    m.api("setTuningMode", "1")
    return m

SYNTAX = ["space", "deep", "unknown", "child", "root"]
def break_syntax(rng, lines):
    """-> kind; makes one EDD text no EDD"""
    k = rng.choice(SYNTAX)
    tags = [i for i, l in enumerate(lines) if re.match(r"\t*(ANY|ALL|[A-Za-z]+ *:)", l)]
    real = [i for i, l in enumerate(lines) if l.strip() and not l.strip().startswith("#")]
    i = rng.choice(real) if real else 0
    if not real:
        lines.append("garbage")
        return "unknown"
    if k == "child" and tags:
        i = rng.choice(tags)
    tabs = len(lines[i]) - len(lines[i].lstrip("\t"))
    if k == "space":
        lines[i] = lines[i][:tabs] + " " + lines[i][tabs:]
    elif k == "deep":
        j = real.index(i)
        prev = len(lines[real[j - 1]]) - len(lines[real[j - 1]].lstrip("\t")) if j else -1
        lines[i] = "\t" * (prev + rng.choice([2, 3])) + lines[i].lstrip("\t")
    elif k == "unknown":
        lines.insert(i, "\t" * tabs + rng.choice(["garbage", "Crit0 is v0", "Crit0 Is", "/test/s0/p1", "Domain: x", "any", "configuration: a", "Crit0 Equals v1", "rule: Crit0 Is v0"]))
    elif k == "child":
        # something its parent cannot have
        own = lines[i].strip()
        kid = {"domain": ["\t/a = 1", "\tcomponent: /a", "\tdomain: x"], "conf": ["\tdomain: x", "\tconf: y", "\tconfGroup: z"], "domainGroup": ["\tconf: x", "\t/a = 1"],
               "supDomain": ["\tconf: x"], "confGroup": ["\t/a = 1", "\tdomain: x"], "supConf": ["\t/a = 1"], "confType": ["\t/a = 1"], "component": ["\tCrit0 Is v0", "\tALL", "\tconf: x"],
               "ANY": ["\t/a = 1", "\tconf: x"], "ALL": ["\t/a = 1", "\tconf: x"]}
        tag = re.match(r"[A-Za-z]+", own)
        if "=" in own.split(":", 1)[0] or not tag or tag.group(0) not in kid or (tag.group(0) not in ("ANY", "ALL") and ":" not in own) or (tag.group(0) in ("ANY", "ALL") and own != tag.group(0)):
            lines[i:i] = ["conf: orphan"]
            return "root"
        lines[i + 1:i + 1] = ["\t" * tabs + rng.choice(kid[tag.group(0)])]
    else:
        lines.insert(rng.choice([0, len(lines)]), rng.choice(["conf: a", "Crit0 Is v0", "ANY", "/a = 1", "component: /a", "confGroup: g", "confType: t"]))
    return k

def generate(ctx, rng, case):
    ctx.op = "gen"
    d = fresh_dir(ctx, "g")
    drv = driver(ctx)
    st = Gen(rng, arrays=.2).structure(rng.choice([1, 2]), 40)
    st.by = {n.path: n for n in st.nodes}
    crits = make_criteria(rng)
    cfg = write_files(d, st, None, ctx.out, tuning=rng.choice(["true", "false"]))
    ref = os.path.join(d, "ref.xml")
    t = open(cfg).read()
    t = re.sub(r"<Location .*</Location>", "", t).replace('TuningAllowed="false"', 'TuningAllowed="true"')
    open(ref, "w").write(t)
    # how the structure and settings are referred to must not matter, nor the plugins
    c = open(cfg).read()
    if rng.random() < .2:
        c = c.replace('Path="structure.xml"', 'Path="%s/structure.xml"' % d)
        what = "absolute structure path"
    elif rng.random() < .2:
        os.makedirs(os.path.join(d, "sub"))
        c = c.replace('Path="structure.xml"', 'Path="../structure.xml"')
        cfg = os.path.join(d, "sub", "top.xml")
    if rng.random() < .5:
        c = c.replace("libmonsub.so", "libnosuch.so")
    if rng.random() < .3:
        c = c.replace("</ParameterFrameworkConfiguration>", '<SettingsConfiguration><ConfigurableDomainsFileLocation Path="nosuch.xml"/></SettingsConfiguration></ParameterFrameworkConfiguration>')
    open(cfg, "w").write(c)
    pool = [n.path for n in st.leaves]
    rng.shuffle(pool)
    src = Source(rng, st, crits)
    initial, single = None, []
    if rng.random() < .4:
        initial, single = settings_inputs(ctx, rng, d, src, pool, ref, crits)
    files, doms, texts = [], [], []
    for i in range(rng.choice([0, 1, 1, 1, 2, 3])):
        roots = [src.domain(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if texts and rng.random() < src.errors * 2:
            roots = roots + texts[0][0]                 # domains described twice
        ds = []
        for r in roots:
            compile_domain(r, [], False, [], [], ds)
        doms.append(ds)
        texts.append((roots, text(rng, roots)))
    crl = criteria_text(rng, crits)
    fatal = None                                        # (what, statuses)
    if rng.random() < .22:
        k = rng.choice(["syntax", "syntax", "syntax", "params", "criteria", "critvalue", "structure", "config", "nofile", "manybits"])
        if k == "syntax" and texts:
            fatal = ("syntax " + break_syntax(rng, rng.choice(texts)[1]), (2,))
        elif k == "params" and pool and len(pool) >= 2:
            a, b = pool[0], pool[1]
            x = G("domain", "Uneven")
            c1, c2 = G("conf", "a"), G("conf", "b")
            c1.items = [(a, value(rng, st.by[a]))]
            c2.items = rng.choice([[(b, value(rng, st.by[b]))], c1.items + [(b, value(rng, st.by[b]))], []])
            x.kids = [c1, c2] if rng.random() < .5 else [c2, c1]
            if rng.random() < .4:
                g = G("cgroup", "grp")
                g.kids = [x.kids.pop()]
                x.kids.append(g)
            texts.append(([x], text(rng, [x])))
            fatal = ("parameters differ", (1,))
        elif k == "criteria":
            crl.insert(rng.randint(0, len(crl)), rng.choice(["garbage", "Criterion X : a b", "inclusiveCriterion X : a", "ExclusiveCriterion X a b", "ExclusiveCriterion : a", "# comment", " ExclusiveCriterion X : a"]))
            fatal = ("criteria file", None)
        elif k == "critvalue":
            crl.append(rng.choice(["ExclusiveCriterion Dup : a b a", "InclusiveCriterion Dup : a a"]))
            fatal = ("criterion value twice", None)
        elif k == "manybits":
            crl.append("InclusiveCriterion Many : " + " ".join("b%d" % i for i in range(rng.choice([32, 33, 34, 40, 64, 65]))))
            fatal = ("too many inclusive values", None)
        elif k == "structure":
            p = os.path.join(d, "structure.xml")
            s = open(p).read()
            open(p, "w").write(s[:len(s) // 2])
            fatal = ("structure", None)
        elif k == "config":
            open(cfg, "w").write(rng.choice([c[:len(c) // 2], "", c.replace("structure.xml", "nosuch.xml")]))
            fatal = ("configuration", None)
        elif k == "nofile":
            fatal = ("missing file", None)
    argv = ["--toplevel-config", cfg, "--criteria", put(d, "criteria.txt", crl, end=rng.random() < .8 or not crl)]
    if not crl:
        open(argv[3], "w").close()
    for i, (_, t) in enumerate(texts):
        files.append(put(d, "f%d.pfw" % i, t, end=rng.random() < .9))
    if files and rng.random() < .03:
        # refused again and again: more errors than an exit status can tell
        k = rng.randint(5, 30)
        i = rng.randrange(len(files))
        files[i:i] = [files[i]] * k
        doms[i:i] = [doms[i]] * k if i < len(doms) else []
    if initial:
        if rng.random() < .06:
            initial = rng.choice([initial + ".nosuch", argv[3]])
        argv += ["--initial-settings", initial]
    if single:
        if rng.random() < .06:
            single.insert(rng.randint(0, len(single)), rng.choice([single[0], "/nosuch/single.xml", cfg]))
        argv += ["--add-domains"] + single
    if files:
        argv += ["--add-edds"] + files
    if rng.random() < .6:
        argv += ["--schemas-dir", SCHEMAS]
        if rng.random() < .5:
            argv += ["--validate"]
    if rng.random() < .3:
        argv += ["--verbose"]
    validate = "--validate" in argv
    if files and rng.random() < .3 and (not fatal or fatal[0].startswith(("syntax", "parameters"))):
        script(ctx, rng, d, drv, ref, crits, files, doms, fatal)
    if fatal and fatal[0] == "missing file":
        i = rng.choice([1, 3] + ([argv.index(files[0])] if files else []))
        argv[i] += ".nosuch"
    ctx.log.append("argv %r" % argv)
    for i, (_, t) in enumerate(texts):
        ctx.log.append("edd %d:\n%s" % (i, "\n".join(t)))
    ctx.log.append("criteria:\n" + "\n".join(crl))
    for x in os.listdir(drv.tmp):
        os.unlink(os.path.join(drv.tmp, x))
    rc, out, err = drv.run(argv, d)
    ctx.log.append("-> %d, %d bytes\n%s" % (rc, len(out), err[-1500:]))
    ctx.note("generator runs")
    if os.listdir(drv.tmp) and not fatal and rc in (0, 255):
        raise Mismatch("gen", "left", "files are left behind: %r\n%s" % (os.listdir(drv.tmp), err[-700:]))
    if fatal:
        if rc == 0 or (fatal[1] and rc not in fatal[1]):
            raise Mismatch("gen", "fatal", "status %d in spite of: %s\n%s" % (rc, fatal[0], err[-800:]))
        if out.strip():
            raise Mismatch("gen", "fatal", "settings are printed in spite of: %s" % fatal[0])
        ctx.note("refused: " + fatal[0])
        return
    # the same, command by command
    try:
        m = reference(ctx, ref, crits, validate)
    except NoStart:
        if not validate:
            raise
        if rc == 0 or out.strip():
            raise Mismatch("gen", "fatal", "status %d in spite of a structure its schema refuses" % rc)
        ctx.note("refused: schema")
        return
    try:
        failed = []
        def cmd(*a):
            ok, o = m.cmd(*a)
            if not ok:
                failed.append(a)
        if initial:
            cmd("importDomainsWithSettingsXML", initial)
        for s in single:
            cmd("importDomainWithSettingsXML", s)
        for ds in doms:
            for _, _, cmds in ds:
                for c in cmds:
                    cmd(*c)
        ok, conflicts = m.cmd("listConflictingElements")
        ok, doc = m.api("exportDomains", "", "1", "0")
    finally:
        m.close()
    want = min(255, len(failed) + (1 if conflicts.strip() else 0))
    ctx.note("failed commands", len(failed))
    ctx.note("more than 255 errors", 1 if len(failed) > 255 else 0)
    ctx.note("with conflicts", 1 if conflicts.strip() else 0)
    if rc != want:
        raise Mismatch("gen", "status", "the generator ends with %d, %d errors expected (%r, conflicts %r)\n%s" % (rc, want, failed[:4], conflicts[:100], err[-1500:]))
    # a configuration whose element sequence was refused has no particular order
    loose = set(f[1] for f in failed if f[0] == "setElementSequence")
    try:
        a = canon_doc(out.decode("utf-8", "surrogateescape"), crits, loose)
    except Exception as e:
        raise Mismatch("gen", "output", "the output is not a settings document: %r\n%r" % (e, out[:300]))
    b = canon_doc(doc, crits, loose)
    ctx.note("documents compared")
    ctx.note("domains compared", len(b))
    ctx.note("configurations compared", sum(len(x[2]) for x in b))
    if a != b:
        raise Mismatch("gen", "document", diff(a, b))
    # (the texts on standard error are not judged: Jython copies them from two threads without care)

def script(ctx, rng, d, drv, ref, crits, files, doms, fatal):
    """The script of commands made of one EDD file says the same."""
    bad = []
    for f in files:
        rc, out, err = drv.run([f] + (["--output-kind", "pfw"] if rng.random() < .5 else []) + (["-d"] if rng.random() < .2 else []), d, "PFWScriptGenerator.py")
        if fatal and rc:
            bad.append(rc)
            if rc not in fatal[1] or out.strip():
                raise Mismatch("gen", "script", "status %d, output %r in spite of: %s" % (rc, out[:200], fatal[0]))
            continue
        if rc:
            raise Mismatch("gen", "script", "the script generator ends with %d: %s" % (rc, err[-900:]))
        if fatal:
            continue
        got = [tuple(shlex.split(l)) for l in out.decode("utf-8", "surrogateescape").splitlines() if l.strip()]
        docs = []
        for cmds in (got, [c for _, _, cs in doms[files.index(f)] for c in cs]):
            m = reference(ctx, ref, crits)
            try:
                failed = [c for c in cmds if not m.cmd(*c)[0]]
                docs.append((m.api("exportDomains", "", "1", "0")[1], failed))
            finally:
                m.close()
        loose = set(x[1] for x in docs[1][1] if x[0] == "setElementSequence")
        a, b = [canon_doc(x[0], crits, loose) for x in docs]
        if a != b:
            raise Mismatch("gen", "script", diff(a, b))
        if len(docs[0][1]) != len(docs[1][1]):
            raise Mismatch("gen", "script", "commands failing: %r, expected %r" % (docs[0][1][:3], docs[1][1][:3]))
        ctx.note("scripts run")
    if fatal and not bad:
        raise Mismatch("gen", "script", "scripts are made in spite of: %s" % fatal[0])

def diff(a, b):
    na, nb = [x[0] for x in a], [x[0] for x in b]
    if na != nb:
        return "domains %r, expected %r" % (na, nb)
    for x, y in zip(a, b):
        for i, what in enumerate(["name", "sequence awareness", "configurations", "elements", "settings", "attributes"]):
            if x[i] != y[i]:
                p, q = x[i], y[i]
                if isinstance(p, list) and len(p) == len(q):
                    p, q = next((u, v) for u, v in zip(p, q) if u != v)
                return "domain %s: %s %.900r, expected %.900r" % (x[0], what, p, q)
    return "?"
