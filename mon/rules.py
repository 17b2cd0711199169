"""Selection criteria and application rules: generation, meaning, renderings, malformed texts."""
from xml.sax.saxutils import quoteattr

class Criterion:
    def __init__(self, name, inclusive, values):
        self.name, self.inclusive, self.values = name, inclusive, list(values)   # values: [(num, literal)]
        self.lits = dict((l, n) for n, l in values)
        if inclusive:
            self.lits["none"] = 0
        self.state = 0

    def num(self, text):
        if self.inclusive:
            v = 0
            for t in text.split("|"):
                if t:
                    v |= self.lits[t]
            return v
        return self.lits[text]

    def formatted(self):
        if self.inclusive:
            r = "|".join(l for b in range(32) for n, l in self.values if n & 0xFFFFFFFF == (1 << b) and self.state & (1 << b))
        else:
            r = "".join(l for n, l in self.values if n == self.state)
        return r or "<none>"

def gen_criteria(rng, n=None):
    out = []
    for i in range(n if n is not None else rng.randint(1, 4)):
        inc = rng.random() < .5
        k = rng.randint(1, 5)
        if inc:
            bits = rng.sample(range(0, 32), k) if rng.random() < .3 else list(range(k))
            if k > 1 and rng.random() < .12:
                bits[-1] = 31                # the sign
            vals = [(1 << b if b < 31 else -1 << 31, "v%d" % b) for b in sorted(set(bits), key=bits.index)]
        else:
            nums = rng.sample(range(-3, 12), k) if rng.random() < .4 else list(range(k))
            vals = [(b, "x%s" % str(b).replace("-", "m")) for b in nums]
        rng.shuffle(vals)
        out.append(Criterion("Crit%d" % i if rng.random() < .8 else "C-%d.z" % i, inc, vals))
    return out

def gen_state(rng, c):
    if rng.random() < .08:
        return rng.choice([0, 0, 99, -7]) if not c.inclusive else rng.choice([0, 0x40000001, 3])
    if c.inclusive:
        v = 0
        for n, _ in c.values:
            if rng.random() < .5:
                v |= n
        return v
    return rng.choice(c.values)[0]

class Leaf:
    def __init__(self, crit, verb, text):
        self.crit, self.verb, self.text = crit, verb, text
        self.num = crit.num(text)
    def eval(self):
        s, v = self.crit.state, self.num
        return {"Is": s == v, "IsNot": s != v, "Includes": (s & v) == v, "Excludes": (s & v) == 0}[self.verb]
    def key(self):
        return (self.crit.name, self.verb, self.num)
    def txt(self, rng=None):
        sp = " " * (rng.randint(1, 2) if rng else 1)
        return self.crit.name + sp + self.verb + sp + self.text
    def xml(self, i=0):
        return '<SelectionCriterionRule SelectionCriterion=%s MatchesWhen="%s" Value=%s/>' % (
            quoteattr(self.crit.name), self.verb, quoteattr(self.text))

class Node:
    def __init__(self, all_, kids):
        self.all, self.kids = all_, kids
    def eval(self):
        return all(k.eval() for k in self.kids) if self.all else any(k.eval() for k in self.kids)
    def key(self):
        return ("All" if self.all else "Any",) + tuple(k.key() for k in self.kids)
    def txt(self, rng=None):
        pad = (lambda: " " * rng.choice([0, 0, 0, 1, 2])) if rng else (lambda: "")
        sep = "," + (pad() if rng else " ")
        return ("All" if self.all else "Any") + "{" + pad() + sep.join(k.txt(rng) + pad() for k in self.kids) + "}"
    def xml(self, i=0):
        return '<CompoundRule Type="%s">%s</CompoundRule>' % ("All" if self.all else "Any", "".join(k.xml() for k in self.kids))
    def leaves(self):
        for k in self.kids:
            if isinstance(k, Leaf):
                yield k
            else:
                for x in k.leaves():
                    yield x

def gen_leaf(rng, crits):
    c = rng.choice(crits)
    verb = rng.choice(["Is", "IsNot", "Includes", "Excludes"] if c.inclusive else ["Is", "IsNot"])
    if c.inclusive:
        pool = [l for _, l in c.values] + ["none"]
        ks = rng.sample(pool, min(len(pool), rng.choice([1, 1, 1, 2, 3])))
        if rng.random() < .15:
            ks.insert(rng.randint(0, len(ks)), rng.choice(ks))
        text = "|".join(ks)
    else:
        text = rng.choice(c.values)[1]
    return Leaf(c, verb, text)

def gen_rule(rng, crits, depth=3, top=True):
    n = rng.choice([0, 1, 1, 2, 2, 3]) if depth > 0 else rng.choice([0, 1, 1, 2])
    if top and rng.random() < .7:
        n = max(n, 1)
    if rng.random() < .06:
        n = rng.randint(4, 7)
    kids = [gen_rule(rng, crits, depth - 1, False) if depth > 0 and rng.random() < .35 else gen_leaf(rng, crits)
            for _ in range(n)]
    return Node(rng.random() < .5, kids)

def gen_bad_text(rng, crits):
    """A rule text that is certainly not a rule."""
    r = gen_rule(rng, crits, 2)
    t = r.txt()
    lv = list(r.leaves())
    c = rng.randrange(13)
    if c == 0:
        return t[:-1]                                     # missing closing brace
    if c == 1:
        return t + "}"
    if c == 2:
        return rng.choice(["", "All", "Any", "{}", "{", "}", ",", "garbage", "all{}", "Every{}", "Crit0 Is x0", "All{", "All}"])
    if c == 3 and lv:
        l = rng.choice(lv); l.crit = Criterion("NoSuchCrit", True, [(1, l.text)]); return r.txt()
    if c == 4 and lv:
        l = rng.choice(lv); l.text = rng.choice(["NoSuchValue", l.text + "z", "1"]); return r.txt()
    if c == 5 and lv:
        l = rng.choice(lv); l.verb = rng.choice(["is", "Equals", "IsNOT", "Include", "Not"]); return r.txt()
    if c == 6 and lv:
        ex = [l for l in lv if not l.crit.inclusive]
        if ex:
            l = rng.choice(ex); l.verb = rng.choice(["Includes", "Excludes"]); return r.txt()
    if c == 7:
        return t.replace("All{", rng.choice(["Al{", "None{", "ALL{"]), 1) if "All{" in t else t.replace("Any{", "Some{", 1)
    if c == 8 and lv:
        l = rng.choice(lv); l.text = l.text + " " + rng.choice(["junk", l.text, l.crit.name]); return r.txt()
    if c == 9:
        return t[:-1] + (", " if len(r.kids) else "") + "stray}"
    if c == 10:
        return t + rng.choice([", Any{}", " All{}", ",", ", " + (lv[0].txt() if lv else "x Is y"), " junk"])
    if c == 11 and lv:
        l = rng.choice(lv)
        l.text = ""
        if rng.random() < .5:
            l.verb = ""
        return r.txt()
    if c == 12:
        return t[:-1] + (", " if r.kids else "") + rng.choice((["}"] if r.kids else []) + [",}", "foo}", "Any {}}"]) if r.kids or rng.random() < .5 else "All{,}"
    return "All{" + rng.choice(["A", "A Is", "A B C D", ","]) + "}"

def parse_text(t, crits):
    """Reads back a rule shown by the framework -> key structure, or None."""
    by = {c.name: c for c in crits}
    pos = [0]
    def ws():
        while pos[0] < len(t) and t[pos[0]] == " ":
            pos[0] += 1
    def item():
        ws()
        for k in ("All", "Any"):
            if t.startswith(k + "{", pos[0]):
                pos[0] += 4
                kids = []
                ws()
                if t.startswith("}", pos[0]):
                    pos[0] += 1
                    return (k,)
                while True:
                    kids.append(item())
                    ws()
                    ch = t[pos[0]]
                    pos[0] += 1
                    if ch == "}":
                        return (k,) + tuple(kids)
                    if ch != ",":
                        raise ValueError
        e = min(i for i in (t.find(",", pos[0]), t.find("}", pos[0]), len(t)) if i >= 0)
        f = t[pos[0]:e].split(" ")
        pos[0] = e
        if len(f) != 3:
            raise ValueError
        c = by[f[0]]
        if not f[2]:
            raise ValueError
        return (f[0], f[1], c.num(f[2]))
    try:
        k = item()
        ws()
        return k if pos[0] == len(t) else None
    except (ValueError, KeyError, IndexError):
        return None

def key_from_xml(e, crits):
    by = {c.name: c for c in crits}
    if e.tag == "CompoundRule":
        return (e.get("Type"),) + tuple(key_from_xml(x, crits) for x in e)
    try:
        v = e.get("Value")
        if not v:
            return ("unreadable value", e.get("SelectionCriterion"), e.get("MatchesWhen"))
        return (e.get("SelectionCriterion"), e.get("MatchesWhen"), by[e.get("SelectionCriterion")].num(v))
    except KeyError:
        return ("unreadable rule", str(e.attrib))
