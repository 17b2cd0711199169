"""Structures: every element has one path (P23), mapping data reaches its object (P24)."""
import os, re, shutil, random
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr
from .world import *
from .structgen import Gen
from . import rules as R
from .special import fresh_dir

# ------------------------------------------------------------------------------ names and file layout
SHORT = ["a", "b", "ab", "a.b", "a-b", "p1", "p10", "p1.x", "0", "1", "00", "A", "x_", "block", "test", "s0", "Name", "n\u00e9", "12", "k", "kk", "kkk", "z9"]

def rename(rng, sub):
    """Short names, equal ones in different branches, prefixes of one another."""
    def uniq(used, d):
        for _ in range(20):
            n = rng.choice(SHORT)
            if n not in used:
                break
        else:
            n = d.name
        used.add(n)
        d.name = n
    def kids(l, used):
        for d in l:
            uniq(used, d)
            if d.tag in ("block", "bitblock"):
                kids(d.children, set())
    done = {}
    for t in sub.types:
        used = set(done[t.extends]) if t.extends else set()
        kids(t.children, used)
        done[t.name] = used
    kids(sub.children, set())

DESC = [None, None, None, "text", "a < b & \"c\"", "tab\tand  blanks", "d\u00e9j\u00e0 vu"]

def describe(rng, sub):
    def rec(l):
        for d in l:
            d.desc = rng.choice(DESC)
            rec(d.children)
    for t in sub.types:
        t.desc = rng.choice(DESC)
        rec(t.children)
    rec(sub.children)

NOISE = ["<!-- note -->", "\n", "<?pi data?>", "  \t ", "<!-- <BooleanParameter Name=\"ghost\"/> -->"]
XI = 'xmlns:xi="http://www.w3.org/2001/XInclude"'

def noise(rng, text):
    """Comments and blanks between elements."""
    out = []
    for l in text.split("\n"):
        out.append(l)
        if rng.random() < .12 and l.rstrip().endswith(">"):
            out.append(rng.choice(NOISE))
    return "\n".join(out)

class Layout:
    """Writes a structure in one of the many ways files can spell it."""
    def __init__(self, rng, d):
        self.r, self.d, self.n, self.notes = rng, d, 0, []

    def file(self, where, text):
        """-> path relative to the including file's folder"""
        self.n += 1
        sub = self.r.choice(["", "", "inc/", "inc/deep/"])
        name = "%spart%d.xml" % (sub, self.n)
        p = os.path.join(where, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write('<?xml version="1.0" encoding="UTF-8"?>\n' + text)
        return name, os.path.dirname(p)

    def types(self, ts, where, depth=2):
        """A list of type declarations, in order, nested at will."""
        r = self.r
        out, i = [], 0
        while i < len(ts):
            k = r.randint(1, len(ts) - i)
            part = ts[i:i + k]
            c = r.random()
            if c < .45 or depth == 0:
                out += part
            elif c < .6:
                tag = r.choice(["ComponentLibrary", "ComponentTypeSet"])
                out.append("<%s>%s</%s>" % (tag, self.types(part, where, depth - 1), tag))
                self.notes.append("nested type sets")
            else:
                self.n += 1
                sub = r.choice(["", "", "inc%d/" % self.n])
                name = "%sset%d.xml" % (sub, self.n)
                folder = os.path.join(where, sub)
                os.makedirs(folder, exist_ok=True)
                body = "<ComponentTypeSet %s>%s</ComponentTypeSet>" % (XI, self.types(part, folder, depth - 1))
                with open(os.path.join(where, name), "w", encoding="utf-8") as f:
                    f.write('<?xml version="1.0" encoding="UTF-8"?>\n' + body)
                out.append('<xi:include href="%s"/>' % name)
                self.notes.append("included type sets")
            i += k
        return "\n".join(out)

    def sub(self, s, where, header=True):
        r = self.r
        x = s.xml()
        head, rest = x.split(" <ComponentLibrary>\n", 1) if s.types else x.split(" <ComponentLibrary>", 1)
        lib, tail = rest.split(" </ComponentLibrary>", 1)
        ts = re.findall(r"  <ComponentType .*?\n  </ComponentType>", lib, re.S)
        if not header:
            head = head.split("?>", 1)[1]
        head = head.replace("<Subsystem ", "<Subsystem %s " % XI)
        if r.random() < .3:
            tail = tail.replace("<InstanceDefinition>", "<InstanceDefinition >")
        libx = " <ComponentLibrary>%s</ComponentLibrary>" % self.types(ts, where)
        i, j = tail.index("<InstanceDefinition"), tail.index("</InstanceDefinition>") + len("</InstanceDefinition>")
        inst = tail[i:j]
        if r.random() < .2:
            text = head + inst + libx + tail[j:]          # the library may come last
            self.notes.append("library after instances")
        else:
            text = head + libx + inst + tail[j:]
        return noise(r, text)

    def write(self, st, plugin_dir, doc=None):
        r, d = self.r, self.d
        folder = r.choice(["", "", "Structure/", "a b/c/"])
        base = os.path.join(d, folder)
        os.makedirs(base, exist_ok=True)
        items = []
        for i, s in enumerate(st.subs):
            c = r.random()
            if c < .45:
                sub = r.choice(["", "subs/", "other dir/"])
                p = os.path.join(base, sub, "sub%d.xml" % i)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w", encoding="utf-8") as f:
                    f.write(self.sub(s, os.path.dirname(p)))
                items.append('<SubsystemInclude Path=%s/>' % quoteattr(r.choice([sub + "sub%d.xml" % i, p])))
                self.notes.append("included subsystems")
            elif c < .6:
                p = os.path.join(base, "xsub%d.xml" % i)
                with open(p, "w", encoding="utf-8") as f:
                    f.write(self.sub(s, base))
                items.append('<xi:include href="xsub%d.xml"/>' % i)
                self.notes.append("subsystems included by XInclude")
            else:
                items.append(self.sub(s, base, False))
                self.notes.append("inline subsystems")
        with open(os.path.join(base, "structure.xml"), "w", encoding="utf-8") as f:
            f.write('<?xml version="1.0" encoding="UTF-8"?>\n<SystemClass %s Name="%s">\n%s\n</SystemClass>\n' % (XI, st.name, "\n".join(items)))
        sett = ""
        if doc is not None:
            with open(os.path.join(d, "domains.xml"), "w", encoding="utf-8") as f:
                f.write(doc)
            sett = ' <SettingsConfiguration>\n  <ConfigurableDomainsFileLocation Path="domains.xml"/>\n </SettingsConfiguration>\n'
        p = os.path.join(d, "config.xml")
        with open(p, "w", encoding="utf-8") as f:
            f.write(CONFIG % (st.name, "5000", "true", plugin_dir, folder + "structure.xml", sett))
        return p

def write_layout(rng, d, st, doc, plugin_dir, note):
    l = Layout(rng, d)
    p = l.write(st, plugin_dir, doc)
    for n in l.notes:
        note(n)
    return p

# ------------------------------------------------------------------------------ P23
PATH_CMDS = {"listElements": 1, "listParameters": 1, "getElementStructureXML": 1, "getElementBytes": 1, "setElementBytes": 2, "getElementXML": 1,
             "setElementXML": 2, "dumpElement": 1, "getElementSize": 1, "showProperties": 1, "getParameter": 1, "setParameter": 2,
             "listBelongingDomains": 1, "listAssociatedDomains": 1, "showMapping": 1}

def lab_structure(rng, **kw):
    def make(r):
        while True:
            g = Gen(r, **kw.get("gen", {}))
            g.depth = r.choice([1, 2, 2, 3])
            g.maxtypes = r.choice([1, 3, 5])
            st = g.structure(kw.get("nsub"), kw.get("maxleaves", 70))
            for s in st.subs:
                if r.random() < .75:
                    rename(r, s)
                describe(r, s)
            st = Structure(r.choice(["test", "a", "Sys.1"]), st.subs)
            mark(st)
            return st
    return make

def mark(st):
    from .structgen import mark_objects
    mark_objects(st)

def tree(ctx, rng, case):
    h = ctx.host()
    d = fresh_dir(ctx, "t")
    prof = dict(weights={}, structure=lab_structure(rng), initial=.4, ncrit=2, deadstart=0,
                writer=lambda w, st, doc: write_layout(w.rng, d, st, doc, w.plugin_dir, ctx.note))
    w = World(h, rng, d, ctx.out, prof, 1, ctx.note)
    w.log = ctx.log
    try:
        _tree(w, ctx, rng)
    finally:
        ctx.op = w.op
        if ctx._host is not None and h.p.poll() is None:
            h.call("del", 1)

def _tree(w, ctx, rng):
    w.setup()
    w.check_mem()
    st = w.st
    # the tree found by following handles from the root is the declared one, in order
    w.op = "walk"
    ctx.note("elements", len(st.nodes))
    seen = []
    def follow(path, n):
        ok, f = w.hnd(path, "info")
        if not ok:
            w.bad("status", "no handle for the reported path %s: %r" % (path, f[0]))
        f = [x.decode("utf-8", "surrogateescape") for x in f]
        w.cmp_info(n, path, f)
        seen.append(path)
        if len(f[9:]) != len(n.children):
            w.bad("children", "%s shows children %s, expected %s" % (path, f[9:], [c.path for c in n.children]))
        for p, c in zip(f[9:], n.children):
            follow(p, c)
    follow("/" + st.name if rng.random() < .8 else "/", st.root)
    if len(set(seen[1:])) != len(seen) - 1:
        w.bad("unique", "a path is reported twice: %s" % sorted(p for p in seen if seen.count(p) > 1)[:3])
    # whole tree renderings
    w.op = "render"
    ok, t = w.cmd("getSystemClassXML")
    w.expect(ok, True, "getSystemClassXML", t)
    w.cmp_structure(w.xnode(t, "structure"), st.root)
    ok, t = w.cmd("listParameters", "/" + st.name)
    w.expect(ok, True, "listParameters", t)
    w.qcmp_lines(t, ["%s [%s]" % (x.path, x.kind) for x in st.root.walk() if x.is_leaf()])
    ctx.note("listings compared")
    # every path through the commands
    w.op = "resolve"
    ok, e = w.api("setTuningMode", True)
    w.expect(ok, True, "setTuningMode", e)
    w.tuning = True
    for n in st.nodes:
        for c in rng.sample(["listElements", "listParameters", "getElementSize", "structxml", "dumpElement", "getElementXML", "getElementBytes", "set", "belong"], 3):
            resolve(w, rng, n, c)
    w.check_mem()
    ctx.note("paths resolved", len(st.nodes))
    # and no other one
    w.op = "others"
    w.api("createDomain", "D")
    w.domains.append(Dom("D"))
    w.api("createConf", "D", "C")
    cf = Conf("C")
    cf.mem = bytearray(w.mem)
    w.dom("D").confs.append(cf)
    top = rng.choice([n for n in st.nodes if n is not st.root and (n.parent is not st.root or True)])
    if not w.associated(top) and not any(w.associated(x) for x in top.walk()):
        ok, e = w.api("addElem", "D", top.path)
        w.expect(ok, True, "addElem " + top.path, e)
        w.dom("D").elems.append(top)
        cf.order = [top]
        cf.mem = bytearray(w.mem)
    for _ in range(rng.randint(25, 60)):
        other(w, rng)
    w.events += w.pop_events()
    w.exp = []
    w.check_events()
    w.check_mem()
    w.check_domains()

def resolve(w, rng, n, c):
    p = n.path
    if c in ("listElements", "listParameters", "getElementSize", "dumpElement", "getElementXML"):
        ok, t = w.cmd(c, p)
        w.expect(ok, True, "%s %s" % (c, p), t)
        if c == "listElements":
            w.qcmp_lines(t, ["%s [%s]" % (x.path, x.kind) for x in [n] + n.children], kinds=True)
        elif c == "listParameters":
            w.qcmp_lines(t, ["%s [%s]" % (x.path, x.kind) for x in n.walk() if x.is_leaf()])
        elif c == "getElementSize":
            m = re.match(r"(\d+) byte", t)
            if not m or int(m.group(1)) != n.size:
                w.bad("size", "size of %s is %r, expected %d" % (p, t, n.size))
        elif c == "dumpElement":
            w.cmp_dump(n, t)
        else:
            w.cmp_xml(w.xnode(t, "settings of " + p), n)
    elif c == "structxml":
        ok, f = w.hnd(p, "structxml")
        w.expect(ok, True, "structure of " + p, f[0].decode("utf-8", "replace"))
        w.cmp_structure(w.xnode(f[0].decode("utf-8", "surrogateescape"), "structure of " + p), n)
    elif c == "getElementBytes":
        if n.size == 0:
            return
        ok, f = w.hnd(p, "getbytes")
        w.expect(ok, True, "bytes of " + p)
        a, b = w.ncanon(n, f[0]) if len(f[0]) == n.size else f[0], w.ncanon(n, w.mem[n.offset:n.offset + n.size])
        if a != b:
            w.bad("bytes", "bytes of %s are %s, expected %s" % (p, f[0].hex(), b.hex()))
    elif c == "belong":
        ok, t = w.cmd("listBelongingDomains", p)
        w.expect(ok, True, "listBelongingDomains " + p, t)
        w.qset(t, [d.name for d in w.belonging(n)])
        ok, t = w.cmd("listAssociatedDomains", p)
        w.expect(ok, True, "listAssociatedDomains " + p, t)
        w.qset(t, [d.name for d in w.associated(n)])
    elif c == "set":
        if not n.is_leaf():
            ok, t = w.do("get", "getParameter", [p])
            w.expect(ok, False, "get of the non-leaf " + p, t)
            return
        v = n.gen_text(rng, w.raw, True)
        if not w.clean_value(v):
            return
        m = bytearray(w.mem)
        if not n.set_text(m, v, w.raw):
            return
        ok, t = w.do("set", "setParameter", [p, v])
        w.expect(ok, True, "set %s %r" % (p, v), t)
        w.mem = m
        w.pop_events()
        ok, t = w.do("get", "getParameter", [p])
        w.expect(ok, True, "get " + p, t)
        if not n.same_text(t, w.mem, w.raw, w.hx):
            w.bad("read", "%s reads %r, expected %r" % (p, t, n.text(w.mem, w.raw, w.hx)))

def mutate(w, rng):
    """A text which is no path of the tree."""
    st = w.st
    n = rng.choice(st.nodes)
    p = n.path
    parts = p.split("/")[1:]
    c = rng.randrange(16)
    if c == 0:
        parts.append(rng.choice(SHORT + ["nosuch", "0", "-1", "1e3", "."]))
    elif c == 1:
        parts.pop()
    elif c == 2:
        i = rng.randrange(len(parts))
        parts[i] = parts[i].swapcase()
    elif c == 3:
        i = rng.randrange(len(parts))
        parts[i] = parts[i][:-1]
    elif c == 4:
        i = rng.randrange(len(parts))
        parts[i] += rng.choice(["x", "0", " ", ".", "\t"])
    elif c == 5:
        i = rng.randrange(len(parts))
        del parts[i]
    elif c == 6:
        i = rng.randrange(len(parts))
        parts.insert(i, rng.choice(parts + ["x", ".", ".."]))
    elif c == 7:
        i = rng.randrange(len(parts))
        parts[i] = rng.choice(rng.choice(st.nodes).path.split("/"))
    elif c == 8 and len(parts) > 1:
        i = rng.randrange(len(parts) - 1)
        parts[i], parts[i + 1] = parts[i + 1], parts[i]
    elif c == 9:
        arrs = [x for x in st.nodes if x.array and not x.is_leaf()]
        if arrs:
            x = rng.choice(arrs)
            parts = x.path.split("/")[1:] + [rng.choice([str(x.array), "-1", "00", "01", "+0", " 0", "0x0", "0 ", "x", "4294967296"])] + \
                (rng.choice(x.children).path.split("/")[-1:] if rng.random() < .3 else [])
    elif c == 10:
        q = rng.choice(st.nodes).path.split("/")[1:]
        parts = parts + q
    elif c == 11:
        q = rng.choice(st.nodes).path.split("/")[1:]
        parts = parts[:rng.randint(1, len(parts))] + q[rng.randint(0, len(q) - 1):]
    elif c == 12:
        return rng.choice([p[1:], " " + p, "x" + p, "\\" + p[1:], ".", "..", "*", p.replace("/", "\\"), p.replace("/", "."), "" if rng.random() < .3 else "a"])
    elif c == 13:
        i = rng.randrange(len(parts))
        parts[i] = rng.choice(["*", "?", "", "%s%s" % (parts[i], parts[i]), parts[i] + "\x01", "\u00e9"])
    elif c == 14:
        # the name of the kind, as elements without name have
        parts[rng.randrange(len(parts))] = rng.choice([n.kind, n.xmlname, "Subsystem", "SystemClass"])
    else:
        arrs = [x for x in st.leaves if x.array]
        if arrs:
            x = rng.choice(arrs)
            parts = x.path.split("/")[1:] + [rng.choice([str(x.array), "-1", "x", "0/0", "1x"])]
    return "/" + "/".join(parts)

def other(w, rng):
    for _ in range(50):
        q = mutate(w, rng)
        # redundant slashes name the same element; an index below an array parameter names its item
        if q[:1] == "/":
            k = [x for x in q.split("/") if x]
            if "/" + "/".join(k) in w.st.bypath or not k:
                continue
            par = w.st.bypath.get("/" + "/".join(k[:-1]))
            if par is not None and par.is_leaf() and par.array and re.match(r"^\s*[-+]?(0[xX])?[0-9a-fA-F]+", k[-1]):
                try:
                    if int(k[-1], 0) < par.array:
                        continue
                except ValueError:
                    if k[-1].strip().lstrip("+").isdigit():
                        continue
        if q != q.strip(" \t\n\v\f\r") and q.strip(" \t\n\v\f\r") in w.st.bypath:
            q = q.strip(" \t\n\v\f\r") + "/nosuch"      # arguments of commands are trimmed
        break
    else:
        return
    v = rng.choice(["1", "0", "0x1"])
    op = rng.choice(list(PATH_CMDS) + ["h", "h", "api-get", "api-set", "getc", "setc", "mapping", "addElem", "removeElem", "split", "setElemSeq"])
    if op == "h":
        ok, f = w.hnd(q, "info")
        e = f[0].decode("utf-8", "replace")
        if not ok:
            e = e.replace("NOHANDLE", "")
    elif op == "api-get":
        ok, e = w.api("get", q)
    elif op == "api-set":
        ok, e = w.api("set", q, v)
    elif op == "mapping":
        ok, e = w.api("mapping", q)
    elif op == "getc":
        ok, e = w.do("getc", "getConfigurationParameter", ["D", "C", q])
    elif op == "setc":
        ok, e = w.do("setc", "setConfigurationParameter", ["D", "C", q, v])
    elif op == "addElem":
        ok, e = w.do("addElem", "addElement", ["D", q])
    elif op == "removeElem":
        ok, e = w.do("removeElem", "removeElement", ["D", q])
    elif op == "split":
        ok, e = w.do("split", "splitDomain", ["D", q])
    elif op == "setElemSeq":
        els = [x.path for x in w.dom("D").elems]
        l = els + [q] if rng.random() < .5 else [q] + els
        ok, e = w.do("setElemSeq", "setElementSequence", ["D", "C"] + l)
    else:
        if op.startswith("list") and (q.strip() == "" or q.strip("/") == ""):
            return
        ok, e = w.cmd(op, q, *([v] if PATH_CMDS[op] == 2 else []))
    w.expect(ok, False, "%s with the path %r" % (op, q), e)
    w.note("other paths refused")

# ------------------------------------------------------------------------------ P24
CTX = ["Tag", "Amend1", "Amend2", "Amend3", "Amend4", "Tail"]
OBJ = ["Obj", "Small", "Req", "Back"]

def parse_map(t):
    out = {}
    for e in t.split(","):
        if e == "":
            continue
        k, _, v = e.partition(":")
        if k in out:
            return None
        out[k] = v
    return out

def lookup(n, key):
    for m in n.maps:
        p = parse_map(m)
        if p and key in p:
            return p[key]
    return None

def amended(v, ctx):
    if v[:1] == "'" and len(v) >= 2:
        v = v[1:-1]
    return re.sub(r"%([1-4])", lambda m: ctx[int(m.group(1))] if ctx[int(m.group(1))] is not None else m.group(0), v)

def as_integer(v):
    """An item of the context as an integer: decimal, octal or hexadecimal digits, whatever follows."""
    m = re.match(r"(0[xX][0-9a-fA-F]+)|0([0-7]*)|(\d+)", v or "")
    if not m:
        return 0
    return int(m.group(1), 16) if m.group(1) else int(m.group(3)) if m.group(3) else int(m.group(2) or "0", 8)

class MapError(Exception):
    pass

def map_model(st):
    """-> objects in creation order: (node, key, raw, formatted, context); MapError when inconsistent"""
    out = []
    def go(n, ctx):
        if any(n.maps):
            ctx = list(ctx)
            for i, k in enumerate(CTX):
                v = lookup(n, k)
                if v is not None:
                    if ctx[i] is not None:
                        raise MapError("context", n)
                    ctx[i] = v
            for k in OBJ:
                v = lookup(n, k)
                if v is None:
                    continue
                if k == "Req" and (ctx[1] is None or ctx[3] is None):
                    raise MapError("ancestor", n)
                if k == "Small" and n.size > 4:
                    raise MapError("size", n)
                out.append((n, k, v, amended(v, ctx), list(ctx)))
                return
            if n.is_leaf() or n.kind == "BitParameterBlock":
                raise MapError("kind", n)
        for c in n.children:
            if c.bit is None:
                go(c, ctx)
    def texts(l):
        for d in l:
            if d.mapping and parse_map(d.mapping) is None:
                raise MapError("duplicate", None)
            texts(d.children)
    for s in st.subs:
        if s.mapping and parse_map(s.mapping) is None:
            raise MapError("duplicate", None)
        for t in s.types:
            if t.mapping and parse_map(t.mapping) is None:
                raise MapError("duplicate", None)
            texts(t.children)
        texts(s.children)
        if s.stype == "MON":
            n = [x for x in st.root.children if x.sub is s][0]
            ctx = [lookup(n, k) for k in CTX]
            for c in n.children:
                go(c, ctx)
    return out

def gen_value(r):
    c = r.random()
    if c < .35:
        return "v%d" % r.randint(0, 99)
    parts = [r.choice(["x", "%1", "%2", "%3", "%4", "%1", "%5", "%", "-", "%0", "a b", ":", "%%", "100%", "/", "'", "%a", "%9"]) for _ in range(r.randint(1, 5))]
    if r.random() < .04:
        return "''"
    v = "".join(parts)
    if r.random() < .15:
        v = "'%s'" % v
    elif v[:1] == "'":
        v = "q" + v
    return v

def gen_mapping(r, st, loose):
    """Random mapping data on every level, inclined to be consistent."""
    def entry(leaf, ctxp, objp, used):
        kv = []
        for k in CTX:
            if k not in used and r.random() < ctxp:
                kv.append((k, r.choice(["c%d" % r.randint(0, 9), "", "%1", "n n", "7", "%d" % r.randint(0, 1 << 31), "0x%X" % r.randint(0, 1 << 20), "017", "010 b", "08"])))
                used = used | {k}
        if r.random() < objp:
            kv.append((r.choice(["Obj", "Obj", "Back", "Back", "Small", "Req"]), gen_value(r)))
            if r.random() < .08:
                kv.append((r.choice([k for k in OBJ if k != kv[-1][0]]), gen_value(r)))
        if kv and r.random() < .1:
            kv.append(("Other", "z"))
        r.shuffle(kv)
        if not kv:
            return (None, used) if r.random() < .93 else ("", used)
        return ",".join(k + ":" + v if v or r.random() < .5 else k for k, v in kv), used
    for s in st.subs:
        low = r.choice([.02, .1, .25])
        base = set()
        s.mapping, base = entry(False, r.choice([0, .2, .5]), .05, base)
        def kids(l, used):
            for d in l:
                leaf = d.tag in ("param", "bitblock")
                arr = d.array and d.tag in ("block", "comp")
                if leaf:
                    d.mapping, _ = entry(True, low if loose else 0 if r.random() < .8 else low, .8, used if r.random() < .9 else set())
                    if d.mapping and not loose and not (set(parse_map(d.mapping) or {}) & set(OBJ)):
                        d.mapping += ",Obj:" + gen_value(r)
                else:
                    d.mapping, u = entry(False, 0 if arr and r.random() < .9 else low, .2, used if r.random() < .9 else set())
                    if d.tag == "block":
                        kids(d.children, u)
        for t in s.types:
            t.mapping, u = entry(False, low, .15, set(base))
            kids(t.children, u)
        kids(s.children, set(base))

FAULTS = ["context", "ancestor", "size", "kind", "duplicate"]

def spoil(r, st, kind):
    """One inconsistency of the given kind somewhere."""
    ds = []
    def rec(l):
        for d in l:
            ds.append(d)
            if d.tag == "block":
                rec(d.children)
    s = r.choice([x for x in st.subs if x.stype == "MON"])
    for t in s.types:
        rec(t.children)
    rec(s.children)
    d = r.choice(ds)
    if kind == "context":
        k = r.choice(CTX)
        s.mapping = ((s.mapping + ",") if s.mapping else "") + k + ":top" if k not in (s.mapping or "") else s.mapping
        d.mapping = k + ":again" + (",Obj:x" if r.random() < .7 else "")
    elif kind == "ancestor":
        d.mapping = "Req:" + gen_value(r)
    elif kind == "size":
        d.mapping = "Small:" + gen_value(r)
    elif kind == "kind":
        d = r.choice([x for x in ds if x.tag in ("param", "bitblock")] or [d])
        d.mapping = r.choice(["Nosuch:1", "Amend4:1", "obj:x", "OBJ", "Obj2:a", " Obj:b"])
    else:
        k = r.choice(OBJ + CTX)
        d.mapping = "%s:a,%s:%s" % (k, k, r.choice(["a", "b"]))

def mapping(ctx, rng, case):
    h = ctx.host()
    want_ok = rng.random() < .62
    for attempt in range(400):
        g = Gen(rng, mapping=False, virtual=.2, **rng.choice([{}, dict(kinds=["int", "bool", "enum"], arrays=.1)]))
        g.depth = rng.choice([1, 1, 2])
        st = g.structure(rng.choice([1, 1, 2, 3]), rng.choice([12, 30, 60]))
        if not any(s.stype == "MON" for s in st.subs):
            continue
        if rng.random() < .5:
            for s in st.subs:
                rename(rng, s)
        gen_mapping(rng, st, False)
        kind = None
        if not want_ok:
            kind = rng.choice(FAULTS)
            spoil(rng, st, kind)
        st = Structure("test", st.subs)
        try:
            objs, err = map_model(st), None
        except MapError as e:
            objs, err = [], e
        if want_ok == (err is None):
            break
    else:
        return
    d = fresh_dir(ctx, "m")
    cfg = write_layout(rng, d, st, None, ctx.out, ctx.note) if rng.random() < .4 else write_files(d, st, None, ctx.out, split=rng.random() < .5)
    op = {"s": "start"}
    def bad(aspect, detail):
        raise Mismatch(op["s"], aspect, detail)
    log = ctx.log.append
    h.raw("hw", "events")
    h.call("new", 1, cfg, "0")
    try:
        img = bytearray(rng.getrandbits(8) for _ in range(st.size))
        for o in objs:
            h.call("hw", "preset", 1, o[0].path, "0", bytes(img[o[0].offset:o[0].offset + o[0].size]))
        ctx.op = "start"
        ok, f = h.call("start", 1)
        log("start -> %s %r" % (ok, f[0][:200]))
        for n in st.nodes:
            if any(n.maps):
                log("%s %s" % (n.path, n.maps))
        ev = h.raw("hw", "events")[1:]
        if err is not None:
            if ok:
                bad("accepted", "started although the mapping is inconsistent (%s at %s)" % (err.args[0], err.args[1].path if err.args[1] else "?"))
            if not f[0].strip():
                bad("error", "start refused without an error text")
            if err.args[1] is not None and err.args[1].path not in f[0] and err.args[1].name not in f[0]:
                bad("error", "the error %r does not name %s" % (f[0], err.args[1].path))
            if ev:
                bad("hw", "a failed start reached the hardware")
            ctx.note("inconsistent mappings refused")
            ctx.note("refused: " + err.args[0])
            return
        if not ok:
            bad("status", "start failed: " + f[0])
        ctx.note("consistent mappings")
        ok, f = h.call("hw", "objs", 1)
        got = [tuple(f[k + 1:k + 8]) for k in range(0, len(f), 8)]
        ids = {f[k]: f[k + 5] for k in range(0, len(f), 8)}
        want = []
        for n, k, raw, fm, cx in objs:
            sub = n.path.split("/")[2]
            want.append((sub, k, raw, fm, n.path, str(n.size), "\x01".join(2 * ["-" if x is None else "+" + x for x in cx] + [str(as_integer(cx[0])), str(as_integer(cx[-1]))])))
        if sorted(got) != sorted(want):
            bad("objects", "subsystem objects differ: missing %s, unexpected %s" % ([x for x in want if x not in got][:3], [x for x in got if x not in want][:3]))
        ctx.note("objects", len(got))
        ctx.note("amended objects", sum(1 for o in objs if amended(o[2], [None] * len(CTX)) != o[3]))
        # each one is read once
        reads = sorted(ids[ev[k].decode()] + ev[k + 1].decode() for k in range(0, len(ev), 3))
        if reads != sorted(o[0].path + "R" for o in objs):
            bad("reads", "objects read at start %s, expected %s" % (reads, sorted(o[0].path for o in objs)))
        op["s"] = ctx.op = "lookup"
        for n in rng.sample(st.nodes, min(len(st.nodes), 25)):
            chain = []
            x = n
            while x is not None:
                chain.append(x)
                x = x.parent
            for k in rng.sample(CTX + OBJ + ["Other", "nosuch"], 4):
                ok, f = h.call("h", 1, n.path, "map", k)
                v = next((lookup(x, k) for x in chain if x.kind != "SystemClass" and lookup(x, k) is not None), None)
                if ok != (v is not None) or ok and f[0] != v:
                    bad("data", "mapping data %s of %s is %r, expected %r" % (k, n.path, f[0] if ok else None, v))
                ctx.note("mapping data read")
            if n.kind == "SystemClass":
                continue
            if rng.random() < .5:
                ok, f = h.call("api", 1, "mapping", n.path)
            else:
                ok, f = h.call("cmd", 1, "showMapping", n.path)
            if not ok:
                bad("show", "no mapping of %s: %s" % (n.path, f[0]))
            parts = []
            for x in reversed(chain):
                for m in reversed(x.maps):
                    p = parse_map(m)
                    if p:
                        parts.append(", ".join("%s:%s" % (k, p[k]) for k in sorted(p)))
            own = [o for o in objs if o[0] is n]
            t = ", ".join(parts) + ("".join(", %s:%s" % (o[1], o[3]) for o in own))
            if f[0] != t:
                bad("show", "mapping of %s shows %r, expected %r" % (n.path, f[0], t))
            ctx.note("mappings shown")
        # every parameter reaches its object
        op["s"] = ctx.op = "reach"
        h.call("api", 1, "setTuningMode", True)
        h.raw("hw", "events")
        own = {}
        for o in objs:
            for x in o[0].walk():
                own[x.path] = o[0]
        ok, f = h.callb("h", 1, "/test", "getbytes")
        mem = bytearray(f[0])
        for n in rng.sample(st.leaves, min(len(st.leaves), 30)):
            v = n.gen_text(rng, False, True)
            m = bytearray(mem)
            if not n.set_text(m, v, False):
                continue
            ok, f = h.call("api", 1, "set", n.path, v)
            ev = h.raw("hw", "events")[1:]
            got = [ids[ev[k].decode()] for k in range(0, len(ev), 3)]
            o = own.get(n.path)
            if got != ([o.path] if o is not None else []):
                bad("reach", "setting %s wrote %s, expected %s" % (n.path, got, o.path if o is not None else "nothing"))
            if o is not None:
                if not ok:
                    bad("status", "set %s %r: %s" % (n.path, v, f[0]))
                ok, f = h.callb("h", 1, o.path, "getbytes")
                if bytes(ev[2]) != f[0]:
                    bad("bytes", "object %s received %s, the framework holds %s" % (o.path, bytes(ev[2]).hex(), f[0].hex()))
                ctx.note("values followed to their object")
            mem = m
        ok, f = h.call("api", 1, "setAutoSync", False)
        h.raw("hw", "events")
        ok, f = h.call("api", 1, "sync")
        ev = h.raw("hw", "events")[1:]
        got = sorted(ids[ev[k].decode()] for k in range(0, len(ev), 3))
        if got != sorted(o[0].path for o in objs):
            bad("sync", "sync wrote %s, expected %s" % (got, sorted(o[0].path for o in objs)))
    finally:
        if ctx._host is not None and h.p.poll() is None:
            h.call("del", 1)
    op["s"] = ctx.op = "destroy"
    ok, f = h.call("hw", "objs", 1)
    if f:
        bad("objects", "subsystem objects outlive their instance: %s" % f[4:6])
