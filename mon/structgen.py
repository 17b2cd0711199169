"""Random structures, fully mapped onto the monitoring subsystem."""
from .model import *

def gen_enum(rng):
    size = rng.choice([1, 1, 2, 2, 4])
    lo, hi = -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1
    n = rng.randint(1, 6)
    vals = set()
    for _ in range(n):
        vals.add(rng.choice([0, 1, 2, -1, lo, hi, rng.randint(lo, hi), rng.randint(-5, 5)]))
    vals = sorted(vals)
    rng.shuffle(vals)
    if rng.random() < .12 and size < 4:      # a value that the size cannot hold
        vals.insert(rng.randint(1, len(vals)), rng.choice([hi + 1, lo - 1, hi * 2 + 1, rng.randint(hi + 1, 1 << 20)]))
    return Enum(size, [(rng.choice(["L", "lit_", "Val ", "e."]) + "%d%s" % (i, chr(97 + i)), v) for i, v in enumerate(vals)])

def gen_int(rng, adapt=None):
    signed, size = rng.random() < .5, rng.choice([1, 2, 4])
    bits = 8 * size
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    c = rng.random()
    if c < .35:
        mn, mx = lo, hi
    elif c < .8:
        a, b = rng.randint(lo, hi), rng.randint(lo, hi)
        mn, mx = min(a, b), max(a, b)
    else:
        mn = rng.randint(max(lo, -20), 20)
        mx = min(hi, mn + rng.randint(0, 60))
        mn = min(mn, mx)
    return Int(signed, size, mn, mx, adapt)

def gen_lin(rng):
    num = rng.choice([1, 2, 3, 10, 0.5, 100, -1, -2, 7, 0.1, 1.5, 255])
    den = rng.choice([1, 1, 2, 3, 10, 0.25, 7, -1, 100])
    return Lin(num, den, rng.choice([0, 0, 1, -1, 10, -100, 1000, 128]))

def gen_log(rng):
    base = rng.choice([10, 2, 1.12, 0.5, 2.718281828459045, 3, 1.0001])
    floor = rng.choice([float("-inf"), -96, -20.7, 0, 3.5, 2, -1])
    return Log(base, floor, rng.choice([1, 20, 10, 0.5, 3, 100]), rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 1, -5, 30]))

def gen_fixed(rng):
    size = rng.choice([1, 2, 4])
    n = rng.randint(0, 8 * size - 1)
    if size == 4 and rng.random() < .3:
        n = 31
    i = rng.randint(0, n)
    return Fixed(size, i, n - i)

def gen_float(rng):
    c = rng.random()
    if c < .4:
        return Float()
    if c < .5:
        return Float(mn=rng.choice([0, -1, -12.5]))
    if c < .6:
        return Float(mx=rng.choice([0, 1, 12.5]))
    a, b = rng.uniform(-100, 100), rng.uniform(-100, 100)
    a, b = round(a, 2), round(b, 2)
    return Float(min(a, b), max(a, b))

def gen_type(rng, kinds=None):
    k = rng.choice(kinds or ["bool", "int", "int", "int", "int", "fixed", "fixed", "float", "enum", "enum", "string", "lin", "log"])
    if k == "bool":
        return Bool()
    if k == "int":
        return gen_int(rng)
    if k == "lin":
        return gen_int(rng, gen_lin(rng))
    if k == "log":
        return gen_int(rng, gen_log(rng))
    if k == "fixed":
        return gen_fixed(rng)
    if k == "float":
        return gen_float(rng)
    if k == "enum":
        return gen_enum(rng)
    return Str(rng.choice([1, 2, 5, 8, 16, 31]))

def gen_bitblock(rng, name):
    size = rng.choice([8, 16, 32, 64])
    pos, kids, i = 0, [], 0
    while pos < size and i < 6:
        if rng.random() < .2:
            pos += rng.randint(1, 4)
        n = rng.choice([1, 1, 2, 3, 5, 8, 13, 32, 64])
        if rng.random() < .15:
            n = size - pos
        if pos + n > size or n < 1:
            if pos >= size:
                break
            n = rng.randint(1, size - pos)
        mx = None if rng.random() < .6 else rng.randint(0, (1 << n) - 1)
        kids.append(D("param", "b%d" % i, type=Bit(pos, n, mx)))
        pos += n
        i += 1
    rng.shuffle(kids)
    return D("bitblock", name, bsize=size, children=kids)

class Gen:
    def __init__(self, rng, kinds=None, size=1.0, virtual=.15, objkey="Back", arrays=.25, mapping=True):
        self.rng, self.kinds, self.scale = rng, kinds, size
        self.virtual, self.objkey, self.arrays, self.mapping = virtual, objkey, arrays, mapping
        self.n = 0
        self.depth, self.maxtypes = 1, 3

    def name(self, p="e"):
        self.n += 1
        r = self.rng.random()
        if r < .06:
            return "%s%d.%s" % (p, self.n, self.rng.choice(["x", "Y-2", "_q"]))
        return "%s%d" % (p, self.n)

    def leaf(self):
        r = self.rng
        if r.random() < .14:
            return gen_bitblock(r, self.name("bb"))
        t = gen_type(r, self.kinds)
        arr = 0
        if not isinstance(t, Str) and r.random() < self.arrays:
            arr = r.choice([1, 2, 3, 4, 7])
            if isinstance(t, Enum):     # a literal holding a space cannot name an item of an array
                t = Enum(t.size, [(l.replace(" ", "_"), v) for l, v in t.pairs])
        return D("param", self.name("p"), type=t, array=arr, desc=r.choice([None, None, "a < description & \"more\""]))

    def kids(self, depth, types):
        r = self.rng
        n = r.randint(1, 4)
        out = []
        for _ in range(n):
            c = r.random()
            if depth <= 0 or c < .5:
                out.append(self.leaf())
            elif c < .75 or not types:
                out.append(D("block", self.name("k"), children=self.kids(depth - 1, types),
                             array=r.choice([0, 0, 0, 2, 3])))
            else:
                out.append(D("comp", self.name("c"), ctype=r.choice(types).name, array=r.choice([0, 0, 0, 0, 2, 3])))
        return out

    def map_decl(self, d, sub, force=False):
        """Give every leaf exactly one owning object."""
        r = self.rng
        if d.tag in ("param", "bitblock") or r.random() < .3 or force:
            d.mapping = "%s:o%d" % (self.objkey, self.n + r.randint(0, 99))
            return
        if d.tag == "block":
            for c in d.children:
                self.map_decl(c, sub)
        # component instances rely on their (fully mapped) type

    def subsystem(self, name, stype):
        r = self.rng
        types = []
        for i in range(r.randint(0, self.maxtypes)):
            ext = r.choice(types).name if types and r.random() < .35 else None
            types.append(CType("T%d" % i, self.kids(self.depth, types), ext))
        kids = []
        for _ in range(max(1, int(r.randint(1, 4) * self.scale))):
            c = r.random()
            if types and c < .5:
                kids.append(D("comp", self.name("C"), ctype=r.choice(types).name, array=r.choice([0, 0, 0, 2])))
            elif c < .75:
                kids.append(D("block", self.name("B"), children=self.kids(self.depth, types), array=r.choice([0, 0, 2])))
            else:
                kids.append(self.leaf())
        s = Sub(name, stype, types, kids)
        if stype == "MON" and self.mapping:
            for t in types:
                for c in t.children:
                    self.map_decl(c, s)
            for c in kids:
                self.map_decl(c, s)
        return s

    def structure(self, nsub=None, maxleaves=60):
        r = self.rng
        while True:
            subs = []
            for i in range(nsub or r.choice([1, 1, 2, 2, 3])):
                v = r.random() < self.virtual
                subs.append(self.subsystem("s%d" % i, "Virtual" if v else "MON"))
            st = Structure("test", subs)
            if 1 <= len(st.leaves) <= maxleaves and st.size > 0:
                break
        mark_objects(st)
        return st

def mark_objects(st):
    def rec(n):
        if n.kind not in ("SystemClass", "Subsystem"):
            m = own_object(n)
            if m:
                n.obj = m
                return
        for c in n.children:
            rec(c)
    for s in st.root.children:
        if s.sub.stype == "MON":
            rec(s)

def own_object(n):
    for m in n.maps:
        for kv in m.split(","):
            k = kv.split(":")[0]
            if k in ("Obj", "Small", "Req", "Back"):
                return m
    return None
