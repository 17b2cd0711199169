"""History engine: executes operations on the framework and on the model, and compares."""
import os, re, collections
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr, escape
from .ptypes import *
from .model import *
from .structgen import Gen
from . import rules as R
from .host import Died, Hang

class Mismatch(Exception):
    def __init__(self, op, aspect, detail):
        Exception.__init__(self, "%s:%s %s" % (op, aspect, detail))
        self.tag = op + ":" + aspect
        self.detail = detail

def untold(l, mem):
    """An array of enumerations holding a value without a literal: its text lacks an item."""
    return bool(l.array) and isinstance(l.type, Enum) and len(l.text(mem, False, False).split()) != l.array

class Conf:
    __slots__ = ("name", "rule", "order", "mem", "have")
    def __init__(self, name):
        self.name, self.rule, self.order, self.mem = name, None, [], None
        self.have = None        # elements a document gives settings for (None: all)

class Dom:
    __slots__ = ("name", "seq", "confs", "elems", "last", "listed")
    def __init__(self, name, seq=False):
        self.name, self.seq, self.confs, self.elems, self.last = name, seq, [], [], None
        self.listed = None      # elements as a document lists them (None: those of the domain)
    def conf(self, n):
        for c in self.confs:
            if c.name == n:
                return c
    def owner(self, node):
        """associated element containing node"""
        for e in self.elems:
            if node.inside(e):
                return e

def copy_area(src, dst, node):
    """Copy the storage of one element between two full size images."""
    if node.bit is not None:
        node.put(dst, node.get(src))
    else:
        dst[node.offset:node.offset + node.size] = src[node.offset:node.offset + node.size]

CONFIG = """<?xml version="1.0" encoding="UTF-8"?>
<ParameterFrameworkConfiguration xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" SystemClassName="%s" ServerPort="%s" TuningAllowed="%s">
 <SubsystemPlugins><Location Folder="%s"><Plugin Name="libmonsub.so"/></Location></SubsystemPlugins>
 <StructureDescriptionFileLocation Path="%s"/>
%s</ParameterFrameworkConfiguration>
"""

def write_files(d, st, domains_xml, plugin_dir, port="5000", tuning="true", split=True):
    """Write configuration and structure files -> configuration path."""
    os.makedirs(d, exist_ok=True)
    subs = []
    for i, s in enumerate(st.subs):
        with open(os.path.join(d, "sub%d.xml" % i), "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(s.xml())
        subs.append('<SubsystemInclude Path="sub%d.xml"/>' % i if split else s.xml().split("?>", 1)[1])
    with open(os.path.join(d, "structure.xml"), "w", encoding="utf-8") as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?>\n<SystemClass Name="%s">\n%s\n</SystemClass>\n' % (st.name, "\n".join(subs)))
    sett = ""
    if domains_xml is not None:
        with open(os.path.join(d, "domains.xml"), "w", encoding="utf-8") as f:
            f.write(domains_xml)
        sett = ' <SettingsConfiguration>\n  <ConfigurableDomainsFileLocation Path="domains.xml"/>\n </SettingsConfiguration>\n'
    p = os.path.join(d, "config.xml")
    with open(p, "w") as f:
        f.write(CONFIG % (st.name, port, tuning, plugin_dir, "structure.xml", sett))
    return p

def decorated(r, doc):
    """The same document with comments and character data sections."""
    if r.random() < .6:
        return doc
    head, body = doc[:doc.index(">") + 1] if doc.startswith("<?") else "", doc[doc.index(">") + 1:] if doc.startswith("<?") else doc
    def text(m):
        c, t = r.random(), m.group(2)
        if c < .08:
            t = "<!-- " + r.choice(["note", "1", "<x/>"]) + " -->" + t
        elif c < .14:
            k = r.randint(0, len(t))
            t = t[:k] + "<!--2-->" + t[k:]
        elif c < .2:
            t = "<![CDATA[" + t + "]]>"
        elif c < .24:
            t = t[:-1] + "&#%d;" % ord(t[-1]) if ord(t[-1]) < 0xD800 else t
        return m.group(1) + t + m.group(3)
    body = re.sub(r"(<\w+Parameter\b[^<>]*[^<>/]>)([^<>&]+)(</)", text, body)
    body = re.sub(r"(</\w+>)(?=\s*<)", lambda m: m.group(1) + ("<!-- %s -->" % r.choice(["x", "<BooleanParameter/>"]) if r.random() < .05 else ""), body)
    return head + body

class World:
    def __init__(self, host, rng, scratch, plugin_dir, prof, iid=0, note=None):
        self.h, self.rng, self.dir, self.plugin_dir, self.prof, self.iid = host, rng, scratch, plugin_dir, prof, iid
        self.note = note or (lambda k, n=1: None)
        self.op = "setup"
        self.log = []
        self.domains = []
        self.tuning, self.autosync, self.raw, self.hx = False, True, False, False
        self.dead, self.resync, self.failing = set(), set(), set()
        self.counter = 0
        self.events = []
        self.on_start = None
        self.legacy = 0
        self.prohibited = False
        self.failed = []

    # ------------------------------------------------------------------ plumbing
    def bad(self, aspect, detail):
        raise Mismatch(self.op, aspect + ("@t" if self.tuning else "@r"), detail)

    def api(self, m, *a):
        self.log.append("api %s %r" % (m, a))
        ok, f = self.h.call("api", self.iid, m, *a)
        self.log[-1] += " -> %s %r" % (ok, [x[:120] for x in f[:3]])
        return ok, (f[0] if f else "")

    def cmd(self, name, *a):
        if name in PACKED and len(a) == PACKED[name] and self.rng.random() < .4:
            # the value of these commands may be spread over several arguments, joined with one space
            v = [""]
            for w in re.split(r"(?<=\S) (?=\S)", str(a[-1])):
                if v[-1] and self.rng.random() < .6:
                    v.append(w)
                else:
                    v[-1] += (" " if v[-1] else "") + w
            a = list(a[:-1]) + v
        self.log.append("cmd %s %r" % (name, [str(x)[:300] for x in a]))
        ok, f = self.h.call("cmd", self.iid, name, *a)
        self.log[-1] += " -> %s %r" % (ok, f[0][:160])
        if ok and name in DONE and f[0] != "Done":
            self.bad("answer", "%s answers %r" % (name, f[0][:200]))
        return ok, f[0]

    def hnd(self, path, op, *a):
        self.log.append("handle %s %s %r" % (path, op, [x if not isinstance(x, (bytes, bytearray)) else bytes(x)[:64] for x in a]))
        ok, f = self.h.callb("h", self.iid, path, op, *a)
        self.log[-1] += " -> %s %r" % (ok, [x[:100] for x in f[:4]])
        return ok, f

    def do(self, m, name, args, apiargs=None):
        """One operation through the API or through its command -> ok, text (output or error)"""
        args = list(args)
        if self.route() == "api":
            return self.api(m, *(args if apiargs is None else apiargs))
        ok, out = self.cmd(name, *args)
        return ok, out

    def route(self):
        r = self.prof.get("route", "mix")
        return r if r != "mix" else ("api" if self.rng.random() < .5 else "cmd")

    def expect(self, got, want, what, err=None):
        if got != want:
            self.bad("status", "%s: framework says %s, expected %s (%s)" % (what, got, want, (err or "")[:200]))
        if not want and err is not None and not err.strip():
            self.bad("error", "%s refused without any error text" % what)
        if not want and err is not None and self.failed:
            # every object met which could not be written is reported
            for o in self.failed:
                m = "" if o is None else "refused " + self.formatted[o.path]
                if m not in err:
                    self.bad("unreported", "%s: the error %r does not tell that %s was refused by the hardware" % (what, err[:300], o.path))
            n = err.count("MON hardware refused")
            if n < sum(o is not None for o in self.failed):
                self.bad("unreported", "%s: %d objects refused, the error tells %d of them: %r" % (what, len(self.failed), n, err[:300]))
            self.note("failures reported", len(self.failed))
        self.failed = []

    def fresh(self, p):
        self.counter += 1
        return "%s%d" % (p, self.counter)

    # ------------------------------------------------------------------ set-up
    def setup(self):
        r, p = self.rng, self.prof
        self.st = st = p["structure"](r) if "structure" in p else Gen(r, **p.get("gen", {})).structure(
            p.get("nsub"), p.get("maxleaves", 40))
        self.crits = R.gen_criteria(r, p.get("ncrit"))
        self.cby = {c.name: c for c in self.crits}
        doc = None
        self.legacy = r.choice([0, 0, 0, 1, 2])
        if r.random() < p.get("initial", .5):
            doc = self.initial_domains()
        self.prohibited = "writer" not in p and r.random() < p.get("prohibited", 0)
        cfg = p["writer"](self, st, doc) if "writer" in p else write_files(self.dir, st, doc, self.plugin_dir, str(p.get("port", 5000)),
                                                                           "false" if self.prohibited else "true")
        h, i = self.h, self.iid
        h.raw("hw", "events", i)
        h.call("new", i, cfg, "port" in p)
        for c in self.crits:
            f = [x for n, l in c.values for x in (n, l)]
            h.call("type", i, c.name + "_t", c.inclusive, *f)
            h.call("crit", i, c.name, c.name + "_t")
        if r.random() < .3:
            for c in self.crits:
                if r.random() < .5:
                    c.state = R.gen_state(r, c)
                    self.pre = True
        if p.get("validate"):
            h.call("flag", i, "validate", "1")
            h.call("flag", i, "schema", "/repo/schemas/")
        for k, v in p.get("flags", {}).items():
            h.call("flag", i, k, v)
        self.objs = [n for n in st.nodes if n.obj]
        self.hw = {}
        self.mem = bytearray(st.size)
        self.setup_hw()
        for c in self.crits:
            if c.state:
                h.call("setcrit", i, c.name, c.state)
        self.op = "start"
        ok, f = h.call("start", i)
        self.note("starts")
        self.note("objects read at start", len(self.back))
        self.log.append("start -> %s %s" % (ok, f))
        if self.on_start:
            self.on_start(ok, f)
        if not ok:
            self.bad("status", "start failed: " + f[0])
        self.start_effects()

    def valid_leaf_bytes(self, mem, n):
        r = self.rng
        for _ in range(4):
            if n.set_text(mem, n.gen_text(r, False, True), False):
                return

    def random_mem(self):
        m = self.st.default_mem()
        for n in self.st.leaves:
            if self.rng.random() < .8:
                self.valid_leaf_bytes(m, n)
        return m

    def setup_hw(self):
        """Choose hardware contents and faults before the start; predict read-back."""
        r = self.rng
        img = self.random_mem()
        dflt = self.st.default_mem()
        self.mem = self.st.default_mem()     # virtual subsystems
        self.back = []
        need = self.uncovered_objs()
        for s in self.st.root.children:
            if s.sub.stype != "MON" and not s.path in need:     # every value comes from configurations
                self.mem[s.offset:s.offset + s.size] = bytes(s.size)
            if s.sub.stype == "MON" and r.random() < self.prof.get("deadstart", .06):
                self.h.call("hw", "sub", self.iid, s.name, "alive", False)
                self.dead.add(s.name)
                self.note("subsystems dead at start")
            if s.sub.stype == "MON" and r.random() < self.prof.get("deadstart", .06):
                self.h.call("hw", "sub", self.iid, s.name, "needResync", True)      # nothing to lose yet
        for o in self.objs:
            fail = r.random() < self.prof.get("unreadable", .35)
            b = bytes(img[o.offset:o.offset + o.size])
            self.h.call("hw", "preset", self.iid, o.path, "1" if fail else "0", b)
            dead = o.sub.name in self.dead
            src = dflt if fail or dead else img
            self.hw[o.path] = b
            if o.path not in need:      # every value comes from configurations about to be applied
                self.mem[o.offset:o.offset + o.size] = bytes(o.size)
                self.note("objects covered by configurations at start")
                continue
            self.mem[o.offset:o.offset + o.size] = src[o.offset:o.offset + o.size]
            if not dead:
                self.back.append((o.path, "r" if fail else "R"))

    def uncovered_objs(self):
        """Objects holding a value which no applicable configuration provides."""
        def covered(n):
            return any(any(c.rule is not None and c.rule.eval() for c in d.confs) and any(c.have is None or n in c.have for c in d.confs)
                       for d in self.associated(n))
        out = set()
        def walk(n):
            if covered(n):
                return
            if n.children:
                for c in n.children:
                    walk(c)
            else:
                out.update(o.path for o in self.sync_objs(n))
                if n.sub is not None and n.sub.stype != "MON":
                    out.add("/" + "/".join(n.path.split("/")[1:3]))
        walk(self.st.root)
        return out

    def start_effects(self):
        h = self.h
        ok, f = h.call("hw", "objs", self.iid)
        self.oid, self.opath, self.formatted = {}, {}, {}
        for k in range(0, len(f), 8):
            self.oid[f[k + 5]] = f[k]
            self.opath[f[k]] = f[k + 5]
            self.formatted[f[k + 5]] = f[k + 4]
        if sorted(self.oid) != sorted(o.path for o in self.objs):
            self.bad("objects", "subsystem objects %s, expected %s" % (sorted(self.oid), sorted(o.path for o in self.objs)))
        ev = self.pop_events()
        n = len(self.back)
        got = collections.Counter((p, t) for p, t, b in ev[:n])
        if got != collections.Counter(self.back):
            self.bad("backsync", "reads at start %s, expected %s" % (sorted(got.elements()), sorted(self.back)))
        self.events = ev[n:]
        for d in self.domains:           # every configuration is completed from the read-back state
            self.complete(d)
        self.exp = []
        self.m_apply(True)
        self.failed = []
        self.check_events()
        self.check_mem()

    # ------------------------------------------------------------------ model of domains
    def initial_domains(self):
        for _ in range(self.rng.randint(1, 3)):
            self.domains.append(self.gen_domain())
        return self.domains_xml(self.domains)

    def gen_domain(self, name=None):
        """A domain as documents declare it, with settings for a part of it only at times."""
        r = self.rng
        st = self.st
        if True:
            d = Dom(name or self.fresh("D"), r.random() < self.prof.get("seqaware", .35))
            d.listed = []
            for _ in range(r.randint(1, 4)):
                e = r.choice(st.nodes[1:] if r.random() < .9 else st.nodes)
                if d.owner(e) is None and (not any(x.inside(e) for x in d.elems) or r.random() < .3):
                    d.listed.append(e)          # an element absorbs those below it
                    d.elems = [x for x in d.elems if not x.inside(e)] + [e]
            partial = r.random() < self.prof.get("partial", .25)
            bare = partial and r.random() < .3
            for _ in range(r.randint(0, 3) + (1 if partial else 0)):
                c = Conf(self.fresh("C"))
                if r.random() < .85:
                    c.rule = R.gen_rule(r, self.crits)
                c.order = list(d.elems)
                r.shuffle(c.order)
                c.mem = self.random_mem()
                for n in st.leaves:          # keep only values exactly expressible as text
                    t = n.text(c.mem, False, False)
                    m2 = bytearray(c.mem)
                    if not n.set_text(m2, t, False) and not n.set_text(c.mem, t, False):
                        st.default_leaf(c.mem, n)
                        t = n.text(c.mem, False, False)
                        n.set_text(c.mem, t, False)
                    else:
                        c.mem[:] = m2
                st.canon(c.mem)
                if partial:
                    p = 0 if bare else r.choice([0, .4, .4, .8, 1])
                    c.order = [e for e in c.order if r.random() < p]
                    c.have = list(c.order)
                d.confs.append(c)
            return d

    def complete(self, d):
        """What a document does not tell comes from the first configuration told, else from the current state."""
        for e in d.elems:
            src = next((c.mem for c in d.confs if c.have is None or e in c.have), self.mem)
            src = bytearray(src)
            for c in d.confs:
                if c.have is not None and e not in c.have:
                    copy_area(src, c.mem, e)
                    self.note("settings completed")
        for c in d.confs:
            if c.have is not None:
                c.order = c.order + [e for e in d.elems if e not in c.order]
            c.have = None
        d.listed = None

    def domains_xml(self, doms, raw=False, hx=False, settings=True):
        x = ['<?xml version="1.0" encoding="UTF-8"?>', '<ConfigurableDomains SystemClassName=%s>' % quoteattr(self.st.name)]
        for d in doms:
            x.append(self.domain_xml(d, raw, hx, settings))
        x.append("</ConfigurableDomains>")
        return "\n".join(x)

    def domain_xml(self, d, raw=False, hx=False, settings=True):
        x = ['<ConfigurableDomain Name=%s SequenceAware="%s">' % (quoteattr(d.name), "true" if d.seq else "false"), "<Configurations>"]
        for c in d.confs:
            x.append("<Configuration Name=%s>%s</Configuration>" % (quoteattr(c.name), c.rule.xml() if c.rule else ""))
        x.append("</Configurations><ConfigurableElements>")
        for e in d.elems if d.listed is None else d.listed:
            x.append("<ConfigurableElement Path=%s/>" % quoteattr(e.path))
        x.append("</ConfigurableElements>")
        if settings and (any(c.have is None or c.have for c in d.confs) or not d.confs or len(d.name) % 2):
            x.append("<Settings>")
            for c in d.confs:
                if c.have is not None and not c.have and len(c.name) % 2:
                    continue
                x.append("<Configuration Name=%s>" % quoteattr(c.name))
                for e in c.order:
                    x.append("<ConfigurableElement Path=%s>" % quoteattr(e.path))
                    x.append(self.values_xml(e, c.mem, raw, hx))
                    x.append("</ConfigurableElement>")
                x.append("</Configuration>")
            x.append("</Settings>")
        x.append("</ConfigurableDomain>")
        return "\n".join(x)

    def values_xml(self, n, mem, raw, hx, top=True):
        a = "Name=%s" % quoteattr(n.name)
        if n.is_leaf():
            if raw and n.kind != "StringParameter":
                a += ' ValueSpace="Raw"' if getattr(n.type, "tag", "") in ("FixedPointParameter", "FloatingPointParameter", "EnumParameter") else ""
            return "<%s %s>%s</%s>" % (n.type.tag, a, escape(n.text(mem, raw, hx)), n.type.tag)
        tag = {"SystemClass": "SystemClass", "Subsystem": "Subsystem", "BitParameterBlock": "BitParameterBlock"}.get(n.kind, "ParameterBlock")
        if tag == "ParameterBlock" and self.legacy and not (top and self.legacy < 2):
            tag = "Component"       # older documents
        return "<%s %s>%s</%s>" % (tag, a, "".join(self.values_xml(c, mem, raw, hx, False) for c in n.children), tag)

    def dom(self, name):
        for d in self.domains:
            if d.name == name:
                return d

    def associated(self, node):
        return [d for d in self.domains if node in d.elems]

    def belonging(self, node):
        n, out = node, []
        while n is not None:
            out += self.associated(n)
            n = n.parent
        return out

    def is_rogue(self, node):
        return not self.belonging(node) and not any(self.associated(x) for x in node.walk())

    # ------------------------------------------------------------------ model of hardware
    def sync_objs(self, node):
        n = node
        while n is not None:
            if n.obj:
                return [n]
            n = n.parent
        return [x for x in node.walk() if x.obj]

    def sync(self, objs):
        """One synchronisation of a set of objects with the current state -> success"""
        seen, group, ok = set(), [], True
        failed = []
        for o in objs:
            if o.path in seen:
                continue
            seen.add(o.path)
            if o.sub.name in self.dead:
                ok = False
                failed.append(None)
                continue
            b = bytes(self.mem[o.offset:o.offset + o.size])
            fail = o.path in self.failing
            group.append((o.path, "s" if fail else "S", o, b))
            if fail:
                ok = False
                failed.append(o)
            else:
                self.hw[o.path] = b
        if group:
            self.exp.append(group)
        self.failed += failed
        return ok

    def sync_elems(self, elems):
        return self.sync([o for e in elems for o in self.sync_objs(e)])

    def restore_area(self, conf, e):
        copy_area(conf.mem, self.mem, e)

    def m_apply(self, force):
        objs = []
        for s in self.st.root.children:
            if s.name in self.resync and s.sub.stype == "MON":
                objs += [n for n in s.walk() if n.obj]
                self.resync.discard(s.name)
        applied = 0
        def pick(d):
            if force:
                d.last = None
            for c in d.confs:
                if c.rule is not None and c.rule.eval():
                    return c if c is not d.last else None
            return None
        for d in self.domains:
            if not d.seq:
                c = pick(d)
                if c:
                    applied += 1
                    for e in c.order:
                        self.restore_area(c, e)
                    d.last = c
                    objs += [o for e in d.elems for o in self.sync_objs(e)]
        self.sync(objs)
        for d in self.domains:
            if d.seq:
                c = pick(d)
                if c:
                    applied += 1
                    for e in c.order:
                        self.restore_area(c, e)
                        self.sync(self.sync_objs(e))
                    d.last = c
        self.note("configurations applied", applied)

    # ------------------------------------------------------------------ observation
    def pop_events(self):
        out = self.h.raw("hw", "events", self.iid)
        ev = []
        for k in range(1, len(out), 3):
            p = self.opath.get(out[k].decode())
            if p is None:
                self.bad("crosstalk", "an object of another instance was accessed")
            ev.append((p, out[k + 1].decode(), out[k + 2]))
        return ev

    def ncanon(self, o, b):
        m = bytearray(self.st.size)
        m[o.offset:o.offset + o.size] = b[:o.size]
        self.st.canon(m)
        return bytes(m[o.offset:o.offset + o.size])

    def check_events(self):
        ev, exp = self.events, self.exp
        self.events, self.exp = [], []
        self.note("hardware writes observed", len(ev))
        pos = 0
        strs = bool(self.st.strings)
        flat = [x for g in exp for x in g]
        by = {o.path: o for o in self.objs}
        cn = (lambda o, b: self.ncanon(o, b)) if strs else (lambda o, b: bytes(b))
        gm = collections.Counter((p, t) for p, t, b in ev)
        wm = collections.Counter((p, t) for p, t, o, b in flat)
        if gm != wm:
            miss, extra = wm - gm, gm - wm
            if miss:
                self.bad("hw-missing", "hardware writes missing: %s (extra: %s)" % (sorted(miss.elements())[:6], sorted(extra.elements())[:6]))
            self.bad("hw-extra", "unexpected hardware writes: %s" % sorted(extra.elements())[:6])
        for g in exp:
            part = ev[pos:pos + len(g)]
            pos += len(g)
            if sorted((p, t) for p, t, b in part) != sorted((p, t) for p, t, o, b in g):
                self.bad("hw-order", "writes came in the order %s, expected groups %s" % (
                    [p for p, t, b in ev], [sorted(p for p, t, o, b in g) for g in exp]))
            want = {p: cn(o, b) for p, t, o, b in g}
            for p, t, b in part:
                if cn(by[p], b) != want[p]:
                    self.bad("hw-bytes", "object %s received %s, expected %s" % (p, cn(by[p], b).hex(), want[p].hex()))

    def check_mem(self):
        ok, f = self.h.callb("h", self.iid, "/" + self.st.name, "getbytes")
        got, want = self.st.canon(bytearray(f[0])), self.st.canon(bytearray(self.mem))
        if got != want:
            diff = [n.path for n in self.st.leaves if n.get(got) != n.get(want)] if len(got) == len(want) else "size"
            det = "" if diff == "size" or not diff else " e.g. %s is %s, expected %s" % (
                diff[0], self.bypath(diff[0]).text(got, True, True), self.bypath(diff[0]).text(want, True, True))
            self.bad("values", "stored values differ at %s%s" % (diff[:6] if diff else "padding", det))

    def bypath(self, p):
        return self.st.bypath[p]

    def observe(self, deep=False):
        self.events += self.pop_events()
        self.check_events()
        self.check_mem()
        if deep:
            self.check_domains()

    # ---- domains as exported
    def exported(self):
        """Read the domain model through an export in raw hexadecimal space."""
        self.h.call("api", self.iid, "setValueSpace", True)
        self.h.call("api", self.iid, "setOutputRawFormat", True)
        ok, f = self.h.call("api", self.iid, "exportDomains", "", True, False)
        self.h.call("api", self.iid, "setValueSpace", self.raw)
        self.h.call("api", self.iid, "setOutputRawFormat", self.hx)
        if not ok:
            self.bad("export", "export of domains failed: %s" % f[0][:300])
        try:
            return ET.fromstring(f[0].encode("utf-8", "surrogateescape")), f[0]
        except ET.ParseError as e:
            self.bad("export", "exported document is not XML: %s" % e)

    def check_domains(self, aspect="domains"):
        root, txt = self.exported()
        self.compare_export(root)
        self.note("domain models compared")

    def compare_export(self, root, doms=None):
        doms = self.domains if doms is None else doms
        got = [d.get("Name") for d in root.findall("ConfigurableDomain")]
        if got != [d.name for d in doms]:
            self.bad("listing", "domains are %s, expected %s" % (got, [d.name for d in doms]))
        for x, d in zip(root.findall("ConfigurableDomain"), doms):
            self.compare_domain(x, d)

    def compare_domain(self, x, d):
        if (x.get("SequenceAware") or "false") not in (("true", "1") if d.seq else ("false", "0")):
            self.bad("seqaware", "domain %s sequence awareness is %s" % (d.name, x.get("SequenceAware")))
        cs = x.find("Configurations")
        cl = [] if cs is None else cs.findall("Configuration")
        if [c.get("Name") for c in cl] != [c.name for c in d.confs]:
            self.bad("listing", "configurations of %s are %s, expected %s" % (d.name, [c.get("Name") for c in cl], [c.name for c in d.confs]))
        for cx, c in zip(cl, d.confs):
            rx = cx.find("CompoundRule")
            got = None if rx is None else R.key_from_xml(rx, self.crits)
            want = c.rule.key() if c.rule else None
            if got != want:
                self.bad("rule", "rule of %s/%s exported as %s, expected %s" % (d.name, c.name, got, want))
        es = x.find("ConfigurableElements")
        el = [] if es is None else [e.get("Path") for e in es.findall("ConfigurableElement")]
        if el != [e.path for e in d.elems]:
            self.bad("elements", "elements of %s are %s, expected %s" % (d.name, el, [e.path for e in d.elems]))
        ss = x.find("Settings")
        sl = [] if ss is None else ss.findall("Configuration")
        if ss is None and not any(c.order for c in d.confs):
            return
        if [c.get("Name") for c in sl] != [c.name for c in d.confs]:
            self.bad("settings", "settings of %s cover configurations %s, expected %s" % (
                d.name, [c.get("Name") for c in sl], [c.name for c in d.confs]))
        for cx, c in zip(sl, d.confs):
            got = [e.get("Path") for e in cx.findall("ConfigurableElement")]
            if got != [e.path for e in c.order]:
                self.bad("sequence", "element order of %s/%s is %s, expected %s" % (d.name, c.name, got, [e.path for e in c.order]))
            for ex, e in zip(cx.findall("ConfigurableElement"), c.order):
                kids = list(ex)
                if len(kids) != 1:
                    self.bad("settings", "settings of %s hold %d elements" % (e.path, len(kids)))
                self.compare_values(kids[0], e, c.mem, "%s/%s" % (d.name, c.name))

    def compare_values(self, x, n, mem, where):
        if x.get("Name") != n.name:
            self.bad("settings", "%s: settings for %s found where %s was expected" % (where, x.get("Name"), n.path))
        if n.is_leaf():
            got = x.text or ""
            if not n.same_text(got, mem, True, True):
                self.bad("confvalues", "%s: %s holds %s, expected %s" % (where, n.path, got, n.text(mem, True, True)))
            return
        k = list(x)
        if len(k) != len(n.children):
            self.bad("settings", "%s: %s has %d children settings" % (where, n.path, len(k)))
        for a, b in zip(k, n.children):
            self.compare_values(a, b, mem, where)

    # ------------------------------------------------------------------ choices
    def pick_dom(self, valid=.93):
        r = self.rng
        if self.domains and r.random() < valid:
            return r.choice(self.domains), None
        n = r.choice(["NoDomain", "", "d"]) if not self.domains or r.random() < .7 else r.choice(self.domains).name + "x"
        return None, n

    def pick_dc(self, valid=.93):
        r = self.rng
        d, n = self.pick_dom(valid)
        if d is None:
            return None, None, n, "AnyConf"
        if d.confs and r.random() < valid:
            c = r.choice(d.confs)
            return d, c, d.name, c.name
        return d, None, d.name, r.choice(["NoConf", "", (d.confs[0].name + "x") if d.confs else "C"])

    def pick_node(self, pool=None, valid=.95):
        r = self.rng
        if r.random() < valid:
            c = r.random()
            p = pool or (self.st.leaves if c < .35 else self.st.nodes[1:] if c < .97 else self.st.nodes)
            n = r.choice(p)
            return n, n.path
        return None, self.bad_path()

    def bad_path(self):
        r = self.rng
        n = r.choice(self.st.nodes)
        p = n.path
        c = r.randrange(9)
        if c == 0:
            q = p + "/nosuch"
        elif c == 1:
            q = p[1:]
        elif c == 2:
            q = "/other" + p[len(self.st.name) + 1:]
        elif c == 3:
            q = ""
        elif c == 4:
            q = p[:-1]
        elif c == 5:
            q = p + "x"
        elif c == 6:
            q = p + "/0/0"
        elif c == 7:
            q = p.rsplit("/", 1)[0] + "/ " + n.name
        else:
            q = "nonsense"
        if q[:1] == "/":            # redundant slashes name the same element
            q2 = "/" + "/".join(x for x in q.split("/") if x)
            if q2 in self.st.bypath:
                return p + "/nosuch"
        # an index below an array parameter is a legal parameter path
        par = self.st.bypath.get(q.rsplit("/", 1)[0])
        if par is not None and par.array and par.is_leaf():
            return p + "/nosuch/0"
        return q

    # ------------------------------------------------------------------ operations
    def step(self, name):
        self.op = name
        self.exp = []
        self.failed = []
        self.log.append("-- " + name)
        getattr(self, "op_" + name)()

    def op_setcrit(self):
        r = self.rng
        for c in r.sample(self.crits, r.randint(1, len(self.crits))):
            c.state = R.gen_state(r, c)
            self.h.call("setcrit", self.iid, c.name, c.state)
            self.log.append("%s = %d" % (c.name, c.state))
        self.check_crits()

    def check_crits(self):
        for c in self.crits:
            ok, f = self.h.call("getcrit", self.iid, c.name)
            if not ok or int(f[0]) != c.state:
                self.bad("criteria", "criterion %s reads %s, expected %d" % (c.name, f[0], c.state))
            if f[2] != c.formatted() and not (c.inclusive and "|" in f[2] and sorted(f[2].split("|")) == sorted(c.formatted().split("|"))):
                self.bad("criteria", "criterion %s shown as %s, expected %s" % (c.name, f[2], c.formatted()))

    def op_apply(self):
        if not self.tuning:
            self.m_apply(False)
            self.note("applications")
        else:
            self.note("applications while tuning")
        self.h.call("apply", self.iid)
        self.log.append("applyConfigurations")

    def op_tuning(self):
        on = self.rng.random() < .9 and not self.tuning or self.rng.random() < .05
        want = on != self.tuning and not self.prohibited
        ok, e = self.do("setTuningMode", "setTuningMode", [on], None) if self.route() == "api" else self.cmd("setTuningMode", "on" if on else "off")
        self.expect(ok, want, "setTuningMode %s" % on, e)
        if want:
            if not on:
                self.m_apply(True)
                self.note("tuning mode left")
            self.tuning = on

    def do(self, m, name, args, apiargs=None):
        args = list(args)
        if self.route() == "api" or (name == "setTuningMode" and isinstance(args[0], bool)):
            return self.api(m, *(args if apiargs is None else apiargs))
        return self.cmd(name, *args)

    def op_autosync(self):
        on = not self.autosync if self.rng.random() < .8 else self.autosync
        want = True
        if on and not self.autosync:
            want = self.sync([n for n in self.st.nodes if n.obj])
        ok, e = self.api("setAutoSync", on) if self.route() == "api" else self.cmd("setAutoSync", "on" if on else "off")
        self.expect(ok, want, "setAutoSync %s" % on, e)
        if want:
            self.autosync = on
        self.note("autosync switches")

    def op_sync(self):
        want = False
        if not self.autosync:
            want = self.sync([n for n in self.st.nodes if n.obj])
        ok, e = self.do("sync", "sync", [])
        self.expect(ok, want, "sync", e)

    def op_space(self):
        r = self.rng
        if r.random() < .5:
            self.raw = r.random() < .5
            if self.route() == "api":
                self.api("setValueSpace", self.raw)
            else:
                self.cmd("setValueSpace", "raw" if self.raw else "real")
        else:
            self.hx = r.random() < .5
            if self.route() == "api":
                self.api("setOutputRawFormat", self.hx)
            else:
                self.cmd("setOutputRawFormat", "hex" if self.hx else "dec")

    # ---- values
    def pick_access(self):
        """-> node, idx, path"""
        r = self.rng
        n = r.choice(self.st.leaves)
        if n.array and r.random() < .6:
            i = r.randrange(n.array)
            return n, i, "%s/%d" % (n.path, i)
        return n, None, n.path

    def op_get(self):
        n, i, p = self.pick_access()
        if self.rng.random() < .05:
            return self.bad_access(False)
        ok, v = self.do("get", "getParameter", [p])
        self.expect(ok, True, "get " + p, v)
        if not n.same_text(v, self.mem, self.raw, self.hx, 0, i):
            self.bad("read", "%s reads %r, expected %r" % (p, v, n.text(self.mem, self.raw, self.hx, 0, i)))
        self.note("values read")

    def bad_access(self, write):
        r = self.rng
        arrs = [n for n in self.st.leaves if n.array]
        c = r.random()
        if arrs and c < .6:
            n = r.choice(arrs)
            p = n.path + "/" + r.choice([str(n.array), str(n.array + 1), "-1", "x", "1x", "99999999999999999999", "0/0",
                                         "18446744073709551616", "1.5", "0x0z", "a1", str(n.array + (1 << 32)),
                                         "%d/0" % r.randrange(n.array), "%d/x" % r.randrange(n.array), ".", " 1", "+1"])
        elif c < .8:
            n = r.choice([x for x in self.st.nodes if not x.is_leaf()])
            p = n.path
        else:
            n, p = None, self.bad_path()
        v = "1" if n is None or not n.is_leaf() else n.type.gen_valid(r, self.raw)
        if write:
            ok, e = self.do("set", "setParameter", [p, v])
        else:
            ok, e = self.do("get", "getParameter", [p])
        self.expect(ok, False, ("set " if write else "get ") + p, e)
        self.note("bad paths refused")

    def clean_value(self, t):
        """text survives the trimming of command arguments"""
        return t == t.strip(" \t\n\v\f\r") and t != ""

    def op_set(self):
        r = self.rng
        if r.random() < .06:
            return self.bad_access(True)
        n, i, p = self.pick_access()
        valid = r.random() < self.prof.get("validset", .75)
        if i is not None and r.random() < .7:
            t = n.type.gen_valid(r, self.raw) if valid else n.type.gen_invalid(r, self.raw)
        else:
            t = n.gen_text(r, self.raw, valid, i)
        mem = bytearray(self.mem)
        acc = n.set_text(mem, t, self.raw, 0, i)
        api = self.route() == "api" or not self.clean_value(t)
        ok, e = self.api("set", p, t) if api else self.cmd("setParameter", p, t)
        if not self.tuning:
            self.gate(ok, "set %s outside tuning mode" % p, e)
            self.note("writes refused outside tuning mode")
            return
        want = acc
        if acc:
            self.mem = mem
            if self.autosync:
                want = self.sync(self.sync_objs(n))
            self.note("values accepted")
        else:
            self.note("values refused")
        self.expect(ok, want, "set %s = %r (%s)" % (p, t, "raw" if self.raw else "real"), e)
        if acc and self.rng.random() < .3:
            self.op_get_of(n, i, p)

    def op_get_of(self, n, i, p):
        ok, v = self.do("get", "getParameter", [p])
        self.expect(ok, True, "get " + p, v)
        if not n.same_text(v, self.mem, self.raw, self.hx, 0, i):
            self.bad("read", "%s reads %r, expected %r" % (p, v, n.text(self.mem, self.raw, self.hx, 0, i)))

    # ---- typed handle access
    KINDS = ["bool", "uint", "int", "double", "string"]
    def typed_value(self, n, kind):
        r = self.rng
        if kind == "bool":
            return r.random() < .5
        t = n.type
        if kind == "string":
            return (t.gen_valid if r.random() < .7 else t.gen_invalid)(r, False)
        if kind == "double":
            if r.random() < .08:
                return r.choice([float("nan"), float("inf"), -float("inf"), 1e300, -1e300, 1e18, -1e18])
            if isinstance(t, (Fixed, Float)):
                lo, hi = (t.lo, t.hi) if isinstance(t, Fixed) else (max(t.mn, -1e5), min(t.mx, 1e5))
                v = r.choice([lo, hi, 0.0, lo - 1, hi + 1, hi + (hi - lo) * 1e-5, lo - (hi - lo) * 1e-5] +
                             ([hi + .3 / (1 << t.f), lo - .3 / (1 << t.f), hi + 1e-4 / (1 << t.f)] if isinstance(t, Fixed) else [])
                             ) if r.random() < .3 else r.uniform(lo, hi)
                return v
            if isinstance(t, Int) and t.adapt:
                v = t.adapt.to_user(r.randint(t.mn, t.mx))
                if not math.isfinite(v):
                    v = 1.0
                return v if r.random() < .5 else v + r.uniform(-3, 3)
            return r.choice([0.0, 1.0, -2.5, 3e9])
        lo, hi = (0, 0xffffffff) if kind == "uint" else (-(1 << 31), (1 << 31) - 1)
        if isinstance(t, Int):
            c = [t.mn, t.mx, t.mn - 1, t.mx + 1, 0, 1, -1, r.randint(t.mn, t.mx), r.randint(t.mn, t.mx)]
        elif isinstance(t, Enum):
            c = [v for _, v in t.pairs] + [v + 1 for _, v in t.pairs] + [v & 0xffff for _, v in t.pairs]
        elif isinstance(t, Bit):
            c = [0, 1, t.mx, t.mx + 1, t.mx >> 1, (t.mx + 1) << 1]
        else:
            c = [0, 1, 2, -1, 255]
        v = r.choice(c)
        return v if lo <= v <= hi else max(lo, min(hi, v))

    def enc_typed(self, n, kind, v):
        return n.type.typed_set_i(kind, v) if n.bit is not None else n.type.typed_set(kind, v)

    def op_hset(self):
        r = self.rng
        n = r.choice(self.st.leaves) if r.random() < .95 else r.choice(self.st.nodes)
        good = {"BooleanParameter": ["bool", "uint"], "IntegerParameter": ["uint", "int", "double"], "EnumParameter": ["int"],
                "FixedPointParameter": ["double"], "FloatingPointParameter": ["double"], "StringParameter": ["string"],
                "BitParameter": ["uint", "bool"]}.get(n.kind, ["int"]) + ["string"]
        kind = r.choice(good) if r.random() < .85 else r.choice(self.KINDS)
        if not n.is_leaf():
            ok, f = self.hnd(n.path, "set" + kind, "1")
            self.expect(ok, False, "typed set of %s" % n.path, f[0].decode())
            return
        arr = bool(n.array) if r.random() < .9 else not n.array
        if arr:
            m = (n.array or 1) if r.random() < .88 else max(1, (n.array or 1) + r.choice([-1, 1, 2]))
            vals = [self.typed_value(n, kind) for _ in range(m)]
            if n.array and r.random() < .5:     # make the whole array acceptable more often
                vals = [v if self.enc_typed(n, kind, v) is not None else self.good_typed(n, kind, v) for v in vals]
            arg = [("%.17g" % v) if kind == "double" else v for v in vals]
            ok, f = self.hnd(n.path, "set" + kind + "s", *arg)
        else:
            vals = [self.typed_value(n, kind)]
            v = vals[0]
            ok, f = self.hnd(n.path, "set" + kind, ("%.17g" % v) if kind == "double" else v)
        err = f[0].decode("utf-8", "replace")
        what = "handle set %s %s%s %r" % (n.path, kind, "[]" if arr else "", vals)
        rogue = self.is_rogue(n)
        if arr != bool(n.array) or not rogue or (arr and len(vals) != n.array):
            self.expect(ok, False, what, err)
            self.note("typed writes refused (owner or shape)")
            return
        if self.tuning:
            self.expect(ok, True, what + " in tuning mode", err)
            self.note("typed writes ignored while tuning")
            return
        es = [self.enc_typed(n, kind, v) for v in vals]
        if any(e is None for e in es):
            self.expect(ok, False, what, err)
            self.note("typed writes refused (value or type)")
            return
        for k, e in enumerate(es):
            if n.bit is not None:
                n.put(self.mem, e)
            else:
                n.put(self.mem, e, 0, k * n.isize)
        want = self.sync(self.sync_objs(n))
        self.note("typed writes accepted")
        self.expect(ok, want, what, err)

    def good_typed(self, n, kind, v):
        for _ in range(12):
            w = self.typed_value(n, kind)
            if self.enc_typed(n, kind, w) is not None:
                return w
        return v

    def op_hget(self):
        r = self.rng
        n = r.choice(self.st.leaves)
        kind = r.choice(self.KINDS)
        arr = bool(n.array) if r.random() < .92 else not n.array
        ok, f = self.hnd(n.path, "get" + kind + ("s" if arr else ""))
        t = n.type
        if n.bit is not None:
            vals = [t.typed_get_i(kind, n.get(self.mem))]
        else:
            b = n.get(self.mem)
            vals = [t.typed_get(kind, b[i * n.isize:(i + 1) * n.isize]) for i in range(n.array or 1)]
        what = "handle get %s %s%s" % (n.path, kind, "[]" if arr else "")
        if arr != bool(n.array) or any(v is None for v in vals):
            self.expect(ok, False, what, f[0].decode("utf-8", "replace") if f else "")
            return
        self.expect(ok, True, what, "x")
        got = [x.decode("utf-8", "surrogateescape") for x in f]
        if len(got) != len(vals):
            self.bad("read", "%s returns %d values, expected %d" % (what, len(got), len(vals)))
        for g, v in zip(got, vals):
            if kind == "bool":
                same = (g == "1") == bool(v)
            elif kind in ("uint", "int"):
                same = int(g) == v
            elif kind == "double":
                g = float(g)
                same = g == v or abs(g - v) <= 1e-9 * max(abs(g), abs(v)) or (g != g and v != v)
            else:
                same = g == v
            if not same:
                self.bad("read", "%s returns %s, expected %s" % (what, g, v))
        self.note("typed reads")

    # ---- bytes and XML settings
    def op_setbytes(self):
        r = self.rng
        n = r.choice(self.st.nodes)
        if n.bit is not None:
            n = n.parent
        m = self.random_mem()
        b = bytes(m[n.offset:n.offset + n.size])
        good = r.random() < .85
        if not good:
            b = b + bytes(r.randint(1, 3)) if r.random() < .5 or len(b) < 2 else b[:-1]
        if self.route() == "api":
            ok, f = self.hnd(n.path, "setbytes", b)
            e, allowed = f[0].decode("utf-8", "replace"), True
        else:
            args = ["0x%02x" % x if r.random() < .5 else str(x) for x in b]
            if args and r.random() < .12:
                args[r.randrange(len(args))] = r.choice(["-1", "-128", "256", "0x100", "1.5", "x", "", "1 2", "0xfff", "65536", "5a", "99999999999999999999"])
                good = False
            ok, e = self.cmd("setElementBytes", n.path, *args)
            allowed = self.tuning
            if not b:
                allowed = False
        if not allowed and b and good:
            return self.gate(ok, "setElementBytes outside tuning mode", e)
        if not good or not allowed:
            self.expect(ok, False, "setbytes %s" % n.path, e)
            return
        self.mem[n.offset:n.offset + n.size] = b
        want = True
        if self.autosync:
            want = self.sync(self.sync_objs(n))
        self.expect(ok, want, "setbytes %s" % n.path, e)
        self.note("byte settings written")

    def op_getbytes(self):
        n = self.rng.choice(self.st.nodes)
        want = self.st.canon(bytearray(self.mem))[n.offset:n.offset + n.size]
        if self.route() == "api":
            ok, f = self.hnd(n.path, "getbytes")
            got = f[0]
        else:
            ok, o = self.cmd("getElementBytes", n.path)
            if not ok:
                self.expect(ok, True, "getElementBytes", o)
            if any(not re.fullmatch("0x[0-9a-fA-F]{2}", x) for x in o.split()):
                self.bad("bytes", "getElementBytes answers %r" % o[:100])
            got = bytes(int(x, 16) for x in o.split())
        if len(got) != n.size:
            self.bad("bytes", "%s has %d bytes, expected %d" % (n.path, len(got), n.size))
        m = bytearray(self.st.size)
        m[n.offset:n.offset + n.size] = got
        if bytes(self.st.canon(m)[n.offset:n.offset + n.size]) != bytes(want):
            self.bad("bytes", "%s bytes are %s, expected %s" % (n.path, bytes(got).hex(), bytes(want).hex()))
        self.note("byte settings read")

    def getxml(self, n):
        if self.route() == "api":
            ok, f = self.hnd(n.path, "getxml")
            t = f[0].decode("utf-8", "surrogateescape")
        else:
            ok, t = self.cmd("getElementXML", n.path)
        self.expect(ok, True, "getxml " + n.path, t)
        return t

    def op_getxml(self):
        n = self.rng.choice(self.st.nodes)
        t = self.getxml(n)
        try:
            x = ET.fromstring(t.encode("utf-8", "surrogateescape"))
        except ET.ParseError as e:
            self.bad("xml", "settings of %s are not XML: %s" % (n.path, e))
        self.cmp_xml(x, n)
        self.note("XML settings read")

    def cmp_xml(self, x, n):
        if x.get("Name") != n.name:
            self.bad("xml", "settings name %s, expected %s" % (x.get("Name"), n.name))
        if n.is_leaf():
            if not n.same_text(x.text or "", self.mem, self.raw, self.hx):
                self.bad("xml", "settings of %s hold %r, expected %r" % (n.path, x.text, n.text(self.mem, self.raw, self.hx)))
            return
        if len(list(x)) != len(n.children):
            self.bad("xml", "settings of %s have %d children, expected %d" % (n.path, len(list(x)), len(n.children)))
        for a, b in zip(x, n.children):
            self.cmp_xml(a, b)

    def setxml(self, n, doc):
        if self.route() == "api":
            ok, f = self.hnd(n.path, "setxml", doc)
            return ok, f[0].decode("utf-8", "replace"), True
        ok, e = self.cmd("setElementXML", n.path, doc)
        return ok, e, self.tuning

    def op_setxml(self):
        """Values written as XML in the current space."""
        r = self.rng
        n = r.choice(self.st.nodes)
        m = self.random_mem()
        raw = r.random() < .4 and not any(isinstance(l.type, Enum) and any(v < 0 for v in l.type.byval) for l in n.leaves())
        mem = bytearray(self.mem)
        for l in n.leaves():
            t = l.text(m, raw, True)
            if not l.set_text(mem, t, raw):
                l.set_text(m, l.text(self.st.default_mem(), raw, True), raw)
        if any(not l.set_text(bytearray(mem), l.text(m, raw, True), raw) for l in n.leaves()):
            return
        leg, self.legacy = self.legacy, min(self.legacy, 1)
        doc = self.values_xml(n, m, raw, True)
        self.legacy = leg
        bad = r.random() < .2
        if bad:
            doc = self.break_settings(doc, n)
            if doc is None:
                return
        else:
            doc = decorated(r, doc)
        ok, e, allowed = self.setxml(n, doc)
        if not allowed:
            return self.gate(ok, "setxml outside tuning mode", e)
        if bad:
            self.expect(ok, False, "setxml of wrong settings on %s" % n.path, e)
            self.note("wrong settings refused")
            # a refused document may have been taken over partly: only this element may have changed
            self.adopt(n)
            return
        for l in n.leaves():
            l.set_text(self.mem, l.text(m, raw, True), raw)
        want = True
        if self.autosync:
            want = self.sync(self.sync_objs(n))
        self.expect(ok, want, "setxml %s" % n.path, e)
        self.note("XML settings written")

    def adopt(self, n):
        """Take over the framework's values under one element (unspecified outcome)."""
        ok, f = self.h.callb("h", self.iid, "/" + self.st.name, "getbytes")
        got = bytearray(f[0])
        copy_area(got, self.mem, n)

    def break_settings(self, doc, n):
        r = self.rng
        c = r.randrange(8)
        if c == 0:
            return doc[:r.randint(1, max(1, len(doc) - 2))]
        if c == 1:
            return doc.replace('Name="', 'Name="zz', 1) if False else "<nonsense/>"
        lv = [l for l in n.leaves() if 'Name=%s' % quoteattr(l.name) in doc]
        if not lv:
            return None
        l = r.choice(lv)
        if c == 2:      # out of range value
            t = l.gen_text(r, False, False)
            if t is None or l.set_text(bytearray(self.mem), t, False) or l.kind == "StringParameter" and len(t) <= l.type.maxlen:
                return None
            if any(ord(ch) < 32 for ch in t):
                return None
            if l.set_text(bytearray(self.mem), t, True):
                return None
            e = ET.fromstring(doc)
            x = self.find_xml(e, n, l)
            if x is None:
                return None
            x.text = t
            return ET.tostring(e, encoding="unicode")
        if l is n:
            return None
        e = ET.fromstring(doc)
        px = self.find_xml(e, n, l.parent)
        if px is None:
            return None
        x = px[l.parent.children.index(l)]
        if c >= 5 and r.random() < .5 and l.parent is not n:      # the same of the element above
            l = l.parent
            px, x = self.find_xml(e, n, l.parent), px
        if c == 6:      # an element of another type
            x.tag = r.choice([t for t in ("Component", "ParameterBlock", "BitParameterBlock", "Subsystem", "IntegerParameter", "BooleanParameter",
                                          "EnumParameter", "StringParameter", "BitParameter", "Nosuch")
                              if t != x.tag and {t, x.tag} != {"Component", "ParameterBlock"}])
        elif c == 7:    # elements in another order
            if len(px) < 2:
                return None
            k = list(px).index(x)
            px.remove(x)
            px.insert((k + r.randint(1, len(px))) % (len(px) + 1), x)
        elif c == 3:      # missing parameter
            px.remove(x)
        elif c == 4:    # unknown parameter
            x.set("Name", "zz" + l.name)
        else:           # one too many
            px.append(ET.fromstring('<IntegerParameter Name="extra">1</IntegerParameter>'))
        return ET.tostring(e, encoding="unicode")

    def find_xml(self, e, top, node):
        chain = []
        n = node
        while n is not top:
            chain.append(n)
            n = n.parent
        x = e
        for n in reversed(chain):
            x = x[n.parent.children.index(n)]
        return x

    def op_xmltrip(self):
        """Read an element's settings, change things, write them back."""
        r = self.rng
        n = r.choice(self.st.nodes)
        raw, hx = self.raw, self.hx
        t = self.getxml(n)
        snap = bytearray(self.mem)
        # some values do not survive their own text form (float digits, low fixed point bits): predict
        want = bytearray(self.mem)
        for l in n.leaves():
            if not l.set_text(want, l.text(snap, raw, hx), raw) or untold(l, snap):
                return
        if r.random() < .7 and self.autosync is not None:
            m = self.random_mem()
            k = r.choice(self.st.nodes)
            if k.bit is not None:
                k = k.parent
            ok, f = self.hnd(k.path, "setbytes", bytes(m[k.offset:k.offset + k.size]))
            self.mem[k.offset:k.offset + k.size] = m[k.offset:k.offset + k.size]
            w = self.sync(self.sync_objs(k)) if self.autosync else True
            self.expect(ok, w, "setbytes", f[0].decode("utf-8", "replace"))
        ok, e, allowed = self.setxml(n, t)
        if not allowed:
            return self.gate(ok, "setxml outside tuning mode", e)
        copy_area(want, self.mem, n)
        w = self.sync(self.sync_objs(n)) if self.autosync else True
        self.expect(ok, w, "write back settings of %s" % n.path, e)
        self.note("settings round trips")

    # ---- domains
    def gated(self, ok, err, what):
        """-> True if the operation was rightly refused because tuning mode is off"""
        if self.tuning:
            return False
        self.gate(ok, what + " outside tuning mode", err)
        self.note("edits refused outside tuning mode")
        return True

    def gate(self, ok, what, err):
        """An operation which only tuning mode allows must have been refused."""
        if ok:
            self.bad("gate", "%s was accepted" % what)
        if not err.strip():
            self.bad("error", "%s refused without any error text" % what)

    def op_createDomain(self):
        r = self.rng
        n = self.fresh("D") if not self.domains or r.random() < .85 else r.choice(self.domains).name
        ok, e = self.do("createDomain", "createDomain", [n])
        if self.gated(ok, e, "createDomain"):
            return
        want = self.dom(n) is None
        self.expect(ok, want, "createDomain " + n, e)
        if want:
            self.domains.append(Dom(n))
            self.note("domain edits")

    def op_deleteDomain(self):
        d, n = self.pick_dom(.85)
        n = d.name if d else n
        ok, e = self.do("deleteDomain", "deleteDomain", [n])
        if self.gated(ok, e, "deleteDomain"):
            return
        self.expect(ok, d is not None, "deleteDomain " + n, e)
        if d:
            self.domains.remove(d)
            self.note("domain edits")

    def op_deleteAllDomains(self):
        if self.rng.random() < .7:
            return
        ok, e = self.do("deleteAllDomains", "deleteAllDomains", [])
        if self.gated(ok, e if not ok else "x", "deleteAllDomains"):
            return
        self.expect(ok, True, "deleteAllDomains", e)
        self.domains = []

    def op_renameDomain(self):
        r = self.rng
        d, n = self.pick_dom()
        n = d.name if d else n
        m = self.fresh("D") if r.random() < .7 or not self.domains else r.choice(self.domains).name
        ok, e = self.do("renameDomain", "renameDomain", [n, m])
        want = d is not None and (self.dom(m) is None or self.dom(m) is d)
        self.expect(ok, want, "renameDomain %s %s" % (n, m), e)
        if want:
            d.name = m
            self.note("domain edits")

    def op_seqaware(self):
        d, n = self.pick_dom()
        n = d.name if d else n
        v = self.rng.random() < .5
        ok, e = self.api("setSeq", n, v) if self.route() == "api" else self.cmd("setSequenceAwareness", n, "true" if v else "false")
        if self.gated(ok, e, "setSequenceAwareness"):
            return
        self.expect(ok, d is not None, "setSequenceAwareness " + n, e)
        if d:
            d.seq = v
            self.note("domain edits")

    def op_createConf(self):
        r = self.rng
        d, n = self.pick_dom()
        n = d.name if d else n
        m = self.fresh("C") if r.random() < .88 or not d or not d.confs else r.choice(d.confs).name
        ok, e = self.do("createConf", "createConfiguration", [n, m])
        if self.gated(ok, e, "createConfiguration"):
            return
        want = d is not None and d.conf(m) is None
        self.expect(ok, want, "createConfiguration %s %s" % (n, m), e)
        if want:
            c = Conf(m)
            c.order = list(d.elems)
            c.mem = bytearray(d.confs[0].mem if d.confs else self.mem)
            d.confs.append(c)
            self.note("domain edits")

    def op_deleteConf(self):
        d, c, n, m = self.pick_dc(.9)
        ok, e = self.do("deleteConf", "deleteConfiguration", [n, m])
        if self.gated(ok, e, "deleteConfiguration"):
            return
        self.expect(ok, c is not None, "deleteConfiguration %s %s" % (n, m), e)
        if c:
            d.confs.remove(c)
            if d.last is c:
                d.last = None
                self.note("last applied configuration deleted")
            self.note("domain edits")

    def op_renameConf(self):
        r = self.rng
        d, c, n, m = self.pick_dc()
        q = self.fresh("C") if r.random() < .8 or not d or not d.confs else r.choice(d.confs).name
        ok, e = self.do("renameConf", "renameConfiguration", [n, m, q])
        want = c is not None and (d.conf(q) is None or d.conf(q) is c)
        self.expect(ok, want, "renameConfiguration %s %s %s" % (n, m, q), e)
        if want:
            c.name = q
            self.note("domain edits")

    def op_saveConf(self):
        d, c, n, m = self.pick_dc()
        ok, e = self.do("saveConf", "saveConfiguration", [n, m])
        if self.gated(ok, e, "saveConfiguration"):
            return
        self.expect(ok, c is not None, "saveConfiguration %s %s" % (n, m), e)
        if c:
            for x in d.elems:
                copy_area(self.mem, c.mem, x)
            self.note("configurations saved")

    def op_restoreConf(self):
        self.restore(*self.pick_dc())

    def restore(self, d, c, n, m):
        if self.route() == "api":
            self.log.append("api restoreConf %s %s" % (n, m))
            ok, f = self.h.call("api", self.iid, "restoreConf", n, m)
            e = " ".join(f)
        else:
            ok, e = self.cmd("restoreConfiguration", n, m)
        if self.gated(ok, e, "restoreConfiguration"):
            return
        want = c is not None
        if c:
            for x in c.order:
                self.restore_area(c, x)
                if d.seq and self.autosync:
                    want &= self.sync(self.sync_objs(x))
            d.last = c
            if not d.seq and self.autosync:
                want &= self.sync_elems(d.elems)
            self.note("configurations restored")
        self.expect(ok, want, "restoreConfiguration %s %s" % (n, m), e)

    def op_addElem(self):
        r = self.rng
        d, n = self.pick_dom()
        n = d.name if d else n
        x, p = self.pick_node()
        if d and d.elems and r.random() < .35:       # element above an associated one
            x = r.choice(d.elems)
            for _ in range(r.randint(0, 2)):
                if x.parent is not None and x.parent.parent is not None:
                    x = x.parent
            p = x.path
        ok, e = self.do("addElem", "addElement", [n, p])
        if self.gated(ok, e, "addElement"):
            return
        want = d is not None and x is not None and d.owner(x) is None
        self.expect(ok, want, "addElement %s %s" % (n, p), e)
        if want:
            merged = [y for y in d.elems if y.inside(x)]
            for c in d.confs:
                new = bytearray(c.mem)
                copy_area(self.mem, new, x)
                for y in merged:
                    copy_area(c.mem, new, y)
                c.mem = new
                c.order = [y for y in c.order if y not in merged] + [x]
            d.elems = [y for y in d.elems if y not in merged] + [x]
            self.note("elements added")
            if merged:
                self.note("descendants merged", len(merged))

    def op_removeElem(self):
        r = self.rng
        d, n = self.pick_dom()
        n = d.name if d else n
        if d and d.elems and r.random() < .8:
            x = r.choice(d.elems)
            p = x.path
        else:
            x, p = self.pick_node()
        ok, e = self.do("removeElem", "removeElement", [n, p])
        if self.gated(ok, e, "removeElement"):
            return
        want = d is not None and x is not None and x in d.elems
        self.expect(ok, want, "removeElement %s %s" % (n, p), e)
        if want:
            d.elems.remove(x)
            for c in d.confs:
                c.order.remove(x)
            self.note("elements removed")

    def op_split(self):
        r = self.rng
        d, n = self.pick_dom()
        n = d.name if d else n
        cand = [x for x in d.elems if x.children] if d else []
        if cand and r.random() < .85:
            x = r.choice(cand)
            p = x.path
        else:
            x, p = self.pick_node()
        ok, e = self.do("split", "splitDomain", [n, p])
        if self.gated(ok, e, "split"):
            return
        want = d is not None and x is not None and x in d.elems and bool(x.children)
        self.expect(ok, want, "split %s %s" % (n, p), e)
        if want:
            d.elems.remove(x)
            d.elems += x.children
            for c in d.confs:
                c.order.remove(x)
                c.order += x.children
            self.note("elements split")

    def op_setElemSeq(self):
        r = self.rng
        d, c, n, m = self.pick_dc()
        ps = []
        if d and d.elems:
            k = r.sample(d.elems, r.randint(1, len(d.elems)))
            ps = [x.path for x in k]
        bad = r.random()
        if bad < .12 or not ps:
            ps.insert(r.randint(0, len(ps)), self.pick_node()[1])
        elif bad < .2:
            ps.insert(r.randint(0, len(ps)), r.choice(ps))
        if any(not p for p in ps):
            return
        ok, e = self.do("setElemSeq", "setElementSequence", [n, m] + ps)
        if self.gated(ok, e, "setElementSequence"):
            return
        want = c is not None and len(set(ps)) == len(ps) and all(self.st.bypath.get(p) in d.elems for p in ps)
        self.expect(ok, want, "setElementSequence %s %s %s" % (n, m, ps), e)
        if want:
            front = [self.st.bypath[p] for p in ps]
            c.order = front + [x for x in c.order if x not in front]
            self.note("element sequences set")

    def op_setRule(self):
        r = self.rng
        d, c, n, m = self.pick_dc()
        if r.random() < self.prof.get("badrule", .15):
            rule, t = None, R.gen_bad_text(r, self.crits)
        else:
            rule = R.gen_rule(r, self.crits)
            t = rule.txt(r)
        ok, e = self.do("setRule", "setRule", [n, m, t])
        want = c is not None and rule is not None
        self.expect(ok, want, "setRule %s %s %r" % (n, m, t), e)
        if want:
            c.rule = rule
            self.note("rules set")
        elif rule is None:
            self.note("malformed rules refused")
        if c and r.random() < .5:
            self.q_rule(d, c)

    def q_rule(self, d, c):
        ok, t = self.do("getRule", "getRule", [d.name, c.name])
        self.expect(ok, True, "getRule", t)
        if c.rule is None:
            if t != "<none>":
                self.bad("rule", "rule of %s/%s shown as %r, expected none" % (d.name, c.name, t))
            return
        k = R.parse_text(t, self.crits)
        if k != c.rule.key():
            self.bad("rule", "rule of %s/%s shown as %r, expected %r" % (d.name, c.name, t, c.rule.txt()))
        self.note("rules read back")

    def op_clearRule(self):
        d, c, n, m = self.pick_dc()
        ok, e = self.do("clearRule", "clearRule", [n, m])
        self.expect(ok, c is not None, "clearRule", e)
        if c:
            c.rule = None

    def op_getc(self):
        d, c, n, m = self.pick_dc()
        l, i, p = self.pick_access()
        if d and d.elems and self.rng.random() < .85:
            e = self.rng.choice(d.elems)
            ls = e.leaves() if not e.is_leaf() else [e]
            if ls:
                l = self.rng.choice(ls)
                i = self.rng.randrange(l.array) if l.array and self.rng.random() < .6 else None
                p = l.path if i is None else "%s/%d" % (l.path, i)
        if i is not None:
            p0 = l.path
        ok, v = self.do("getc", "getConfigurationParameter", [n, m, p])
        want = c is not None and d.owner(l) is not None and i is None
        if c is not None and d.owner(l) is not None and i is not None:
            want = None           # array items are not elements: see located()
        if want is None:
            if not ok:
                return
            want = True
        self.expect(ok, want, "getConfigurationParameter %s %s %s" % (n, m, p), v)
        if want:
            mem = self.mem if d.last is c else c.mem
            if not l.same_text(v, mem, self.raw, self.hx, 0, i):
                self.bad("confvalues", "%s/%s %s reads %r, expected %r" % (n, m, p, v, l.text(mem, self.raw, self.hx, 0, i)))
            self.note("configuration values read")

    def op_setc(self):
        r = self.rng
        d, c, n, m = self.pick_dc()
        l = r.choice(self.st.leaves)
        if d and d.elems and r.random() < .85:
            e = r.choice(d.elems)
            ls = e.leaves() if not e.is_leaf() else [e]
            if ls:
                l = r.choice(ls)
        t = l.gen_text(r, self.raw, r.random() < .85)
        api = self.route() == "api" or not self.clean_value(t)
        ok, e = self.api("setc", n, m, l.path, t) if api else self.cmd("setConfigurationParameter", n, m, l.path, t)
        want = c is not None and d.owner(l) is not None
        if want:
            mem = bytearray(c.mem)
            want = l.set_text(mem, t, self.raw)
            if want:
                c.mem = mem
                self.note("configuration values written")
                if d.last is c:
                    l.set_text(self.mem, t, self.raw)
                    if self.autosync:
                        want = self.sync(self.sync_objs(l))
        self.expect(ok, want, "setConfigurationParameter %s %s %s %r" % (n, m, l.path, t), e)

    # ---- faults
    def op_fault(self):
        r = self.rng
        c = r.random()
        mons = [s for s in self.st.root.children if s.sub.stype == "MON"]
        if c < .4 and mons:
            s = r.choice(mons)
            self.resync.add(s.name)
            self.h.call("hw", "sub", self.iid, s.name, "needResync", True)
            self.log.append("resync asked by " + s.name)
            self.note("resynchronisation requests")
        elif c < .65 and mons:
            s = r.choice(mons)
            al = s.name in self.dead
            (self.dead.discard if al else self.dead.add)(s.name)
            self.h.call("hw", "sub", self.iid, s.name, "alive", al)
            self.log.append("%s %s" % (s.name, "alive" if al else "dead"))
            self.note("subsystem deaths and revivals")
        elif self.objs:
            o = r.choice(self.objs)
            f = o.path not in self.failing
            (self.failing.add if f else self.failing.discard)(o.path)
            self.h.call("hw", "obj", self.oid[o.path], "failSend", f)
            self.log.append("%s fails: %s" % (o.path, f))
            self.note("refusing objects toggled")

    # ---- queries
    def op_query(self):
        r = self.rng
        q = r.randrange(13)
        if q == 0:
            ok, t = self.cmd("listDomains")
            self.qcmp(t, "".join(d.name + (" [sequence aware]" if d.seq else "") + "\n" for d in self.domains))
        elif q == 1:
            d, n = self.pick_dom()
            n = d.name if d else n
            ok, t = self.cmd("listConfigurations", n)
            self.expect(ok, d is not None, "listConfigurations", t)
            if d:
                self.qcmp(t, "".join(c.name + "\n" for c in d.confs))
        elif q == 2:
            d, n = self.pick_dom()
            n = d.name if d else n
            ok, t = self.cmd("listDomainElements", n)
            self.expect(ok, d is not None, "listDomainElements", t)
            if d:
                self.qcmp(t, "".join(x.path + "\n" for x in d.elems))
        elif q == 3:
            d, c, n, m = self.pick_dc()
            ok, t = self.cmd("getElementSequence", n, m)
            self.expect(ok, c is not None, "getElementSequence", t)
            if c:
                self.qcmp(t.strip("\n"), "\n".join(x.path for x in c.order))
        elif q == 4:
            d, n = self.pick_dom()
            n = d.name if d else n
            ok, t = self.do("getSeq", "getSequenceAwareness", [n])
            self.expect(ok, d is not None, "getSequenceAwareness", t)
            if d:
                self.qcmp({"1": "true", "0": "false"}.get(t, t), "true" if d.seq else "false")
        elif q == 5:
            d, c, n, m = self.pick_dc()
            if c:
                self.q_rule(d, c)
            else:
                ok, t = self.do("getRule", "getRule", [n, m])
                self.expect(ok, False, "getRule", t)
        elif q in (6, 7, 8):
            self.q_status()
        elif q == 9:
            n, p = self.pick_node()
            ok, t = self.cmd("listBelongingDomains", p)
            self.expect(ok, n is not None, "listBelongingDomains", t)
            if n:
                self.qset(t, [d.name for d in self.belonging(n)])
        elif q == 10:
            n, p = self.pick_node()
            ok, t = self.cmd("listAssociatedDomains", p)
            self.expect(ok, n is not None, "listAssociatedDomains", t)
            if n:
                self.qset(t, [d.name for d in self.associated(n)])
        elif q == 11:
            n = r.choice(self.st.nodes)
            ok, f = self.hnd(n.path, "info")
            if (f[5] == b"1") != self.is_rogue(n):
                self.bad("rogue", "%s rogue: %s, expected %s" % (n.path, f[5], self.is_rogue(n)))
        else:
            self.q_elements()
        self.note("listings compared")

    def qcmp(self, got, want):
        if got.strip("\n") != want.strip("\n"):
            self.bad("listing", "answer %r, expected %r" % (got[:400], want[:400]))

    def qset(self, got, want):
        if sorted(x for x in got.split("\n") if x) != sorted(want):
            self.bad("listing", "answer %r, expected %r" % (got[:400], want))

    def pending(self, d):
        for c in d.confs:
            if c.rule is not None and c.rule.eval():
                return "" if c is d.last else c.name
        return "<none>"

    def q_status(self):
        ok, t = self.cmd("status")
        self.expect(ok, True, "status", t)
        want = ["%s: %s [%s]" % (d.name, d.last.name if d.last else "<none>", self.pending(d)) for d in self.domains]
        m = re.search(r"Last Applied \[Pending\] Configurations:\n[^\n]*\n(.*?)\n*Selection Criteria:", t, re.S)
        got = [x for x in (m.group(1).split("\n") if m else []) if x and not set(x) <= set("=-~*")]
        if m is None:
            self.bad("listing", "status has no list of configurations: %r" % t[:300])
        if got != want:
            self.bad("last", "status shows %s, expected %s" % (got, want))
        for k, v in (("Tuning Mode", "on" if self.tuning else "off"), ("Value Space", "raw" if self.raw else "real"),
                     ("Output Raw Format", "hex" if self.hx else "dec"), ("Auto Sync", "on" if self.autosync else "off")):
            if "%s: %s\n" % (k, v) not in t:
                self.bad("modes", "status does not show %s: %s" % (k, v))
        for c in self.crits:
            if "%s = %s" % (c.name, c.formatted()) not in t:
                self.bad("criteria", "status does not show %s = %s" % (c.name, c.formatted()))

    def q_elements(self):
        ok, t = self.cmd("listRogueElements")
        out = []
        def agg(n):
            if self.associated(n):
                return False, []
            rs = [agg(c) for c in n.children]
            if all(a for a, _ in rs):
                return True, [n]
            return False, [x for _, l in rs for x in l]
        self.qset(t, [n.path for n in agg(self.st.root)[1]])
        ok, t = self.cmd("listAssociatedElements")
        self.qset(t, ["%s [%s]" % (n.path, ", ".join(d.name for d in self.assoc_in_order(n))) for n in self.st.nodes if self.associated(n)]
                  if self.order_known() else [x for x in t.split("\n") if x])
        ok, t = self.cmd("listConflictingElements")
        got = sorted(x.split(" contained")[0] for x in t.split("\n") if x)
        want = sorted(n.path for n in self.st.nodes if self.associated(n) and len(self.belonging(n)) > 1)
        if got != want:
            self.bad("listing", "conflicting elements %s, expected %s" % (got, want))

    def order_known(self):
        return all(len(self.associated(n)) < 2 for n in self.st.nodes)

    def assoc_in_order(self, n):
        return self.associated(n)

    # ---- browsing commands
    def xnode(self, t, what):
        try:
            return ET.fromstring(t.encode("utf-8", "surrogateescape"))
        except ET.ParseError as e:
            self.bad("xml", "%s is not XML: %s" % (what, e))

    def lines(self, t):
        return [x for x in t.split("\n") if x]

    def op_browse(self):
        r = self.rng
        q = r.randrange(13)
        n, p = self.pick_node(self.st.nodes, .93)
        if q == 0:
            self.q_modes()
        elif q == 1:
            self.q_criteria()
        elif q == 2:
            if r.random() < .15:
                n, p = None, "/"
            ok, t = self.cmd("listElements", p)
            self.expect(ok, n is not None or p == "/", "listElements " + p, t)
            if ok:
                top = n or self.st.root
                self.qcmp_lines(t, ["%s [%s]" % (x.path, x.kind) for x in [top] + top.children], kinds=True)
        elif q == 3:
            if r.random() < .15:
                n, p = None, "/"
            ok, t = self.cmd("listParameters", p)
            self.expect(ok, n is not None or p == "/", "listParameters " + p, t)
            if ok:
                top = n or self.st.root
                self.qcmp_lines(t, ["%s [%s]" % (x.path, x.kind) for x in top.walk() if x.is_leaf()])
        elif q == 4:
            ok, t = self.cmd("getElementSize", p)
            self.expect(ok, n is not None, "getElementSize " + p, t)
            if n:
                m = re.match(r"(\d+) (bit|byte)", t)
                want = (n.size, "byte")
                if not m or (int(m.group(1)), m.group(2)) != want:
                    self.bad("size", "size of %s is %r, expected %s" % (p, t, want))
        elif q == 5:
            ok, t = self.cmd("showProperties", p)
            self.expect(ok, n is not None, "showProperties " + p, t)
            if n:
                self.cmp_properties(n, t)
        elif q == 6:
            ok, t = self.cmd("dumpElement", p)
            self.expect(ok, n is not None, "dumpElement " + p, t)
            if n:
                self.cmp_dump(n, t)
        elif q in (7, 8):
            top = n
            if q == 8:
                ok, t = self.cmd("getSystemClassXML")
                top = self.st.root
            elif self.route() == "api" and n is not None:
                ok, f = self.hnd(p, "structxml")
                t = f[0].decode("utf-8", "surrogateescape")
            else:
                ok, t = self.cmd("getElementStructureXML", p)
            self.expect(ok, top is not None, "structure of " + p, t)
            if top:
                self.cmp_structure(self.xnode(t, "structure of " + p), top)
        elif q == 9:
            ok, t = self.cmd("dumpDomains")
            self.cmp_dump_domains(t)
        elif q == 10:
            ok, t = self.cmd("help")
            have = set(x.split(" ")[0] for x in self.lines(t))
            if not have >= set(COMMANDS) | {"help"}:
                self.bad("listing", "help does not show %s" % sorted(set(COMMANDS) - have))
        elif q == 11 and n:
            ok, f = self.hnd(p, "info")
            f = [x.decode("utf-8", "surrogateescape") for x in f]
            self.cmp_info(n, p, f)
        else:
            bp = self.bad_path()
            if r.random() < .6:
                c = r.choice(["listElements", "listParameters", "getElementSize", "showProperties", "dumpElement", "getElementStructureXML",
                              "getElementXML", "getElementBytes", "listBelongingDomains", "listAssociatedDomains", "getParameter", "showMapping"])
                ok, t = self.cmd(c, bp)
                if not (c.startswith("list") and bp == ""):
                    self.expect(ok, False, "%s %r" % (c, bp), t)
            else:
                ok, f = self.hnd(bp, "info")
                self.expect(ok, False, "handle of %r" % bp, f[0].decode("utf-8", "replace"))
            self.note("bad paths refused")
        self.note("browsing answers compared")

    def cmp_info(self, n, p, f):
        want = [n.name, n.path, n.kind, str(n.size), "1" if n.is_leaf() else "0", "1" if self.is_rogue(n) else "0"]
        if f[:6] != want:
            self.bad("handle", "handle of %s shows %s, expected %s" % (p, f[:6], want))
        if n.is_leaf() and (f[6] == "1") != bool(n.array) or n.is_leaf() and f[7] != str(n.array or 0):
            self.bad("handle", "handle of %s shows array %s length %s, expected %s" % (p, f[6], f[7], n.array))
        if f[8] != (n.desc or ""):
            self.bad("handle", "handle of %s shows description %r, expected %r" % (p, f[8], n.desc))
        if f[9:] != [x.path for x in n.children]:
            self.bad("handle", "children of %s are %s, expected %s" % (p, f[9:], [x.path for x in n.children]))

    def qcmp_lines(self, got, want, kinds=False):
        g = self.lines(got)
        for a, b in zip(g, want):
            if a != b:
                self.bad("listing", "answer %r, expected %r" % (a, b))
        if g != want:
            self.bad("listing", "answer %r, expected %r" % (g[:20], want[:20]))

    def q_modes(self):
        for c, w in (("getTuningMode", "on" if self.tuning else "off"), ("getValueSpace", "raw" if self.raw else "real"),
                     ("getOutputRawFormat", "hex" if self.hx else "dec"), ("getAutoSync", "on" if self.autosync else "off")):
            ok, t = self.cmd(c)
            if not ok or t != w:
                self.bad("modes", "%s answers %r, expected %r" % (c, t, w))
        for m, w in (("isTuningModeOn", self.tuning), ("isAutoSyncOn", self.autosync)):
            ok, t = self.api(m)
            if t != ("1" if w else "0"):
                self.bad("modes", "%s answers %s, expected %s" % (m, t, w))

    def q_criteria(self):
        ok, t = self.cmd("listCriteria", "CSV")
        got = []
        for l in self.lines(t):
            m = re.match(r"Criterion name: (.*), type kind: (\w+), current state: (.*), states: \{(.*)\}$", l)
            got.append(m.groups() if m else l)
        lits = lambda c: sorted(([("none", 0)] if c.inclusive else []) + [(l, v) for v, l in c.values])
        g2 = [(a, b, c, sorted(d.split(", "))) if len(x) == 4 else x for x in got for a, b, c, d in [x if len(x) == 4 else (x, "", "", "")]]
        want = [(c.name, "inclusive" if c.inclusive else "exclusive", c.formatted(), [l for l, _ in lits(c)]) for c in self.crits]
        if sorted(g2) != sorted(want):
            self.bad("criteria", "listCriteria CSV answers %s, expected %s" % (g2, want))
        ok, t = self.cmd("listCriteria", "XML")
        x = self.xnode(t, "listCriteria XML")
        g = sorted((e.get("Name"), e.get("Kind").lower(), e.get("Value"), sorted((v.get("Literal"), int(v.get("Numerical"))) for v in e)) for e in x)
        w = sorted((c.name, "inclusive" if c.inclusive else "exclusive", c.formatted(), lits(c)) for c in self.crits)
        if g != w:
            self.bad("criteria", "listCriteria XML answers %s, expected %s" % (g, w))

    def cmp_properties(self, n, t):
        p = {}
        for l in self.lines(t):
            k, _, v = l.partition(":")
            p[k.strip()] = v.strip()
        sz = "%d byte(s)" % n.size
        if n.bit is not None and (p.get("Bit pos"), p.get("Bit size"), p.get("Max")) != (str(n.type.pos), str(n.type.bsize), str(n.type.mx)):
            self.bad("properties", "%s shows %r" % (n.path, t))
        if p.get("Total size") != sz:
            self.bad("properties", "%s shows %r, expected size %s" % (n.path, t, sz))
        if n.desc and "Description" in p and p["Description"] != n.desc:
            self.bad("properties", "%s shows description %r" % (n.path, p["Description"]))
        if n.is_leaf() and n.bit is None:
            if p.get("Array length", "") != (str(n.array) if n.array else ""):
                self.bad("properties", "%s shows array length %s, expected %s" % (n.path, p.get("Array length"), n.array))
            y = n.type
            if isinstance(y, Int):
                if p.get("Min") != str(y.mn) or p.get("Max") != str(y.mx) or p.get("Signed") != ("yes" if y.signed else "no"):
                    self.bad("properties", "%s shows %r, expected [%d, %d]" % (n.path, t, y.mn, y.mx))

    def cmp_dump(self, n, t):
        want = [(x.depth - n.depth, x) for x in n.walk()]
        got = t.rstrip("\n").split("\n")
        # values never hold line ends here
        if len(got) != len(want):
            self.bad("dump", "dump of %s has %d lines, expected %d" % (n.path, len(got), len(want)))
        for l, (d, x) in zip(got, want):
            m = re.match(r"( *)- (\w+): (.*)$", l, re.S)
            if not m or len(m.group(1)) != 4 * d:
                self.bad("dump", "dump line %r, expected %s at depth %d" % (l, x.name, d))
            nm, eq, v = m.group(3).partition(" = ")
            if nm != x.name and not (x.is_leaf() and nm == x.name):
                self.bad("dump", "dump line %r, expected %s" % (l, x.name))
            if x.is_leaf() and not x.same_text(v, self.mem, self.raw, self.hx):
                self.bad("dump", "dump shows %s = %r, expected %r" % (x.path, v, x.text(self.mem, self.raw, self.hx)))

    def cmp_structure(self, e, n):
        if e.get("Name") != n.name:
            self.bad("structure", "structure shows %s, expected %s" % (e.get("Name"), n.path))
        if n.is_leaf():
            y = n.type
            if n.bit is None and (e.get("ArrayLength") or "0") not in (str(n.array or 0),) and not (not n.array and e.get("ArrayLength") == "1"):
                self.bad("structure", "structure of %s shows array length %s, expected %s" % (n.path, e.get("ArrayLength"), n.array))
            if n.bit is not None:
                if (e.get("Size"), e.get("Pos")) != (str(y.bsize), str(y.pos)):
                    self.bad("structure", "structure of %s shows %s, expected size %d at %d" % (n.path, e.attrib, y.bsize, y.pos))
            elif isinstance(y, Int):
                if (e.get("Min"), e.get("Max"), e.get("Size"), e.get("Signed")) != (str(y.mn), str(y.mx), str(8 * y.size), "true" if y.signed else "false"):
                    self.bad("structure", "structure of %s shows %s, expected [%d, %d]" % (n.path, e.attrib, y.mn, y.mx))
            elif isinstance(y, Fixed):
                if (e.get("Size"), e.get("Integral"), e.get("Fractional")) != (str(8 * y.size), str(y.i), str(y.f)):
                    self.bad("structure", "structure of %s shows %s" % (n.path, e.attrib))
            elif isinstance(y, Enum):
                got = [(v.get("Literal"), v.get("Numerical")) for v in e.findall("ValuePair")]
                if got != [(l, str(v)) for l, v in y.pairs]:
                    self.bad("structure", "structure of %s shows %s" % (n.path, got))
            elif isinstance(y, Str):
                if e.get("MaxLength") != str(y.maxlen):
                    self.bad("structure", "structure of %s shows %s" % (n.path, e.attrib))
            return
        ks = [x for x in e if x.get("Name") is not None and x.tag not in ("ComponentType", "ComponentLibrary")]
        if len(ks) != len(n.children):
            self.bad("structure", "structure of %s shows %s" % (n.path, [x.get("Name") for x in ks]))
        for a, b in zip(ks, n.children):
            self.cmp_structure(a, b)

    def cmp_dump_domains(self, t):
        got = [l for l in self.lines(t) if re.match(r" {4}- | {8}- ", l)]
        want = []
        for d in self.domains:
            want.append("    - ConfigurableDomain: %s = {Sequence aware: %s, Last applied configuration: %s}" % (
                d.name, "yes" if d.seq else "no", d.last.name if d.last else "<none>"))
            for c in d.confs:
                want.append("        - Configuration: %s" % c.name)
        if got != want:
            self.bad("listing", "dumpDomains shows %s, expected %s" % (got, want))

    def op_cmdargs(self):
        """Missing arguments and unknown commands are refused."""
        r = self.rng
        if r.random() < .25:
            c = r.choice(["nosuch", "", "SetParameter", "setparameter", "get", "setParameterX", "statu", " status", "getParameter "])
            ok, t = self.cmd(c, *["x"] * r.randint(0, 3))
            if c.strip() in COMMANDS and ok:
                return
            self.expect(ok, False, "unknown command %r" % c, t)
            self.note("unknown commands refused")
            return
        c = r.choice([k for k, v in COMMANDS.items() if v > 0])
        d, cf, n, m = self.pick_dc(1)
        args = [n or "D", m or "C", r.choice(self.st.nodes).path, "1"]
        if COMMANDS[c] == 1:
            args = [r.choice([n or "D", r.choice(self.st.nodes).path])]
        args = args[:r.randint(0, COMMANDS[c] - 1)]
        ok, t = self.cmd(c, *args)
        self.expect(ok, False, "%s with %d arguments" % (c, len(args)), t)
        self.note("commands with missing arguments refused")

    def op_badmode(self):
        """Words other than the expected ones are refused by the mode commands."""
        r = self.rng
        c, good = r.choice([("setTuningMode", ("on", "off")), ("setValueSpace", ("raw", "real")), ("setOutputRawFormat", ("hex", "dec")),
                            ("setAutoSync", ("on", "off")), ("listCriteria", ("csv", "xml"))])
        w = r.choice(["ON", "true", "1", "", "onn", "rawx", "Raw", "HEX", "x", "o"])
        if w.lower() in good and (w in good or c == "listCriteria"):
            return
        if c == "setSequenceAwareness":
            return
        ok, t = self.cmd(c, w)
        self.expect(ok, False, "%s %r" % (c, w), t)
        self.note("unknown modes refused")

    # ---- export and import
    def op_domtrip(self):
        """Export everything, disturb, import back."""
        r = self.rng
        settings = r.random() < .8
        raw, hx = r.random() < .6, r.random() < .7
        self.api("setValueSpace", raw)
        self.api("setOutputRawFormat", hx)
        tofile = r.random() < .4
        path = os.path.join(self.dir, "export.xml")
        if r.random() < .08:
            self.noexport(settings)
        if self.route() == "api" or (tofile is False and not settings):
            ok, f = self.h.call("api", self.iid, "exportDomains", path if tofile else "", settings, tofile)
            t = f[0]
        elif tofile:
            ok, t = self.cmd("exportDomainsWithSettingsXML" if settings else "exportDomainsXML", path)
        else:
            ok, t = self.cmd("getDomainsWithSettingsXML")
        self.expect(ok, True, "export", t)
        want = self.after_import(self.domains, raw, hx, settings)
        if want is None:
            self.api("setValueSpace", self.raw)
            self.api("setOutputRawFormat", self.hx)
            return
        # importing may happen in a different space: documents carry their own
        if r.random() < .5:
            self.api("setValueSpace", self.raw)
            self.api("setOutputRawFormat", self.hx)
        if r.random() < .4 and self.tuning:
            ok, e = self.api("deleteAllDomains")
            self.expect(ok, True, "deleteAllDomains", e)
            self.domains = []
        src = path if tofile else t
        cmd = self.route() == "cmd"
        if cmd and not tofile and settings:
            ok, e = self.cmd("setDomainsWithSettingsXML", src)
        elif cmd and tofile:
            ok, e = self.cmd("importDomainsWithSettingsXML" if settings else "importDomainsXML", src)
        else:
            ok, e = self.api("importDomains", src, settings, tofile)
        self.api("setValueSpace", self.raw)
        self.api("setOutputRawFormat", self.hx)
        if self.gated(ok, e, "import"):
            return
        self.expect(ok, True, "import of exported domains", e)
        self.domains = want
        self.note("domain documents round tripped")
        self.check_domains()

    def noexport(self, settings):
        """Nothing can be written there."""
        r = self.rng
        path = r.choice([self.dir, self.dir + "/nosuch/x.xml", "", self.dir + "/structure.xml/x"] + 2 * ["/dev/full"] * os.path.exists("/dev/full"))
        d, n = self.pick_dom()
        one = d is not None and r.random() < .5
        if self.route() == "api":
            ok, f = self.h.call("api", self.iid, "exportDomain", path, d.name, settings, True) if one else self.h.call("api", self.iid, "exportDomains", path, settings, True)
            e = f[0]
        elif one:
            ok, e = self.cmd("exportDomainWithSettingsXML", d.name, path)
        else:
            ok, e = self.cmd("exportDomainsWithSettingsXML" if settings else "exportDomainsXML", path)
        self.expect(ok, False, "export to %r" % path, e)
        self.note("exports which cannot be written refused")

    def after_import(self, doms, raw, hx, settings):
        out = []
        for d in doms:
            n = Dom(d.name, d.seq)
            n.elems = list(d.elems)
            for c in d.confs:
                m = Conf(c.name)
                m.rule = c.rule
                m.order = list(c.order) if settings else list(d.elems)
                m.mem = bytearray(c.mem if settings else self.mem)
                if settings:
                    for e in d.elems:
                        for l in e.leaves() if not e.is_leaf() else [e]:
                            if raw and isinstance(l.type, Enum) and any(v < 0 for v in l.type.byval):
                                return None        # known finding: such documents cannot be read back
                            if not l.set_text(m.mem, l.text(c.mem, raw, hx), raw) or untold(l, c.mem):
                                return None        # stored pattern has no text of its own in that space
                n.confs.append(m)
            out.append(n)
        return out

    def op_domone(self):
        """Single domain export / import, overwriting or not."""
        r = self.rng
        d, n = self.pick_dom()
        n = d.name if d else n
        raw = r.random() < .7
        self.api("setValueSpace", raw)
        self.api("setOutputRawFormat", True)
        settings, tofile = True, r.random() < .25
        path = os.path.join(self.dir, "one.xml")
        if self.route() == "api":
            settings = r.random() < .75
            ok, f = self.h.call("api", self.iid, "exportDomain", path if tofile else "", n, settings, tofile)
            t = f[0]
        elif tofile:
            ok, t = self.cmd("exportDomainWithSettingsXML", n, path)
        else:
            ok, t = self.cmd("getDomainWithSettingsXML", n)
        self.api("setValueSpace", self.raw)
        self.api("setOutputRawFormat", self.hx)
        self.expect(ok, d is not None, "export of domain " + n, t)
        if not d:
            return
        if tofile:
            with open(path, encoding="utf-8", errors="surrogateescape") as f:
                t = f.read()
        if ("<Settings" in t) != settings and d.confs and d.elems:
            self.bad("xml", "domain %s exported %s settings: %s" % (n, "with" if settings else "without", t[:1500]))
        want = self.after_import([d], raw, True, settings)
        if want is None:
            return
        gone = False
        if r.random() < .4 and self.tuning:
            ok, e = self.api("deleteDomain", d.name)
            self.expect(ok, True, "deleteDomain", e)
            self.domains.remove(d)
            gone = True
        ow = r.random() < .6
        if not gone and r.random() < .3:            # under another name
            x = ET.fromstring(t.encode("utf-8", "surrogateescape"))
            want[0].name = self.fresh("D")
            x.set("Name", want[0].name)
            t = ET.tostring(x, encoding="unicode")
            gone = True
        if self.route() == "api":
            ok, e = self.api("importDomain", t, ow, settings, False)
        elif settings:
            ok, e = self.cmd("setDomainWithSettingsXML", t, *(["overwrite"] if ow else []))
        else:
            ok, e = self.api("importDomain", t, ow, settings, False)
        if self.gated(ok, e, "import"):
            return
        self.expect(ok, gone or ow, "import of domain " + n, e)
        if ok:
            if not gone:
                self.domains.remove(d)
            self.domains.append(want[0])
            self.note("single domains round tripped")
            self.check_domains()

    def op_partimport(self):
        """Documents telling a part only of the settings: what is missing is completed."""
        r = self.rng
        one = r.random() < .4
        fresh = None
        if one and self.domains and r.random() < .5:
            fresh = r.choice(self.domains).name
        n0 = len(self.domains)
        ds = [self.gen_domain(fresh if one else None) for _ in range(1 if one else r.randint(1, 3))]
        settings = r.random() < .85
        leg, self.legacy = self.legacy, r.choice([0, 0, 1, 2])
        t = self.domains_xml(ds)
        if one:
            t = t[:t.index("\n")] + t[t.index("\n", t.index("<ConfigurableDomains")):t.rindex("</ConfigurableDomains>")]
        self.legacy = leg
        t = decorated(r, t)
        ow = r.random() < .6
        path = os.path.join(self.dir, "part.xml")
        tofile = r.random() < .3
        if tofile:
            with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(t)
        src = path if tofile else t
        if self.route() == "cmd" and (settings or tofile and not one):
            if one:
                ok, e = self.cmd("importDomainWithSettingsXML" if tofile else "setDomainWithSettingsXML", src, *(["overwrite"] if ow else []))
            elif tofile:
                ok, e = self.cmd("importDomainsWithSettingsXML" if settings else "importDomainsXML", src)
            else:
                ok, e = self.cmd("setDomainsWithSettingsXML", src)
        elif one:
            ok, e = self.api("importDomain", src, ow, settings, tofile)
        else:
            ok, e = self.api("importDomains", src, settings, tofile)
        if self.gated(ok, e, "import"):
            return
        old = self.dom(ds[0].name) if one else None
        want = not one or old is None or ow
        self.expect(ok, want, "import of a document written by hand", e)
        if not want:
            return
        for d in ds:
            if not settings:
                for c in d.confs:
                    c.have, c.order = [], []
            self.complete(d)
        if old:
            self.domains.remove(old)
        self.domains = self.domains + ds if one else ds
        self.note("documents imported")
        self.check_domains()
        if ds[0].confs and r.random() < .6:      # the values are there
            d = r.choice([d for d in ds if d.confs])
            c = r.choice(d.confs)
            self.restore(d, c, d.name, c.name)

    def op_badimport(self):
        """A corrupted domain document is refused; no partial domain set stays."""
        r = self.rng
        if not self.domains:
            return
        from . import faults
        one = r.random() < .5
        ds = [r.choice(self.domains)] if one else self.domains
        kind = r.choice([k for k in faults.SURE if not one or k not in ("root", "cls")])
        kind, b = faults.spoil_domains(r, self.domains_xml(ds, True, True), kind)
        if b is None:
            return
        if one and kind == "truncated":
            b = '<?xml version="1.0" encoding="UTF-8"?>\n' + self.domain_xml(ds[0], True, True)
            b = faults.truncated(r, b)
        elif one and kind != "garbage":
            x = ET.fromstring(b.encode("utf-8", "surrogateescape"))
            b = faults.tos(x.find("ConfigurableDomain"))
        c = kind
        self.note("corrupted: " + kind)
        if one:
            ok, e = self.api("importDomain", b, True, True, False)
        else:
            ok, e = self.api("importDomains", b, True, False)
        if self.gated(ok, e, "import"):
            return
        self.expect(ok, False, "import of a corrupted document (%s)" % c, e)
        self.note("corrupted documents refused")
        if not one:
            root, txt = self.exported()
            if root.findall("ConfigurableDomain"):
                # a refused import leaves either the former set or none
                self.compare_export(root)
                self.note("former set kept")
            else:
                self.domains = []
        self.check_domains()

    # ------------------------------------------------------------------ driver
    def run(self, nops):
        r, p = self.rng, self.prof
        self.setup()
        self.observe(True)
        names = [k for k, w in p["weights"].items() if w > 0]
        ws = [p["weights"][k] for k in names]
        for k in range(nops):
            op = r.choices(names, ws)[0]
            # histories need sessions of both kinds
            if not self.tuning and op in NEEDS_TUNING and r.random() < p.get("auto_tuning", .6):
                op = "tuning"
            self.step(op)
            self.note("operations")
            self.note("op " + op)
            deep = op in EDITS or r.random() < p.get("deep", .05)
            self.observe(deep)
        self.op = "final"
        self.observe(True)

    def close(self):
        self.h.call("del", self.iid)

NEEDS_TUNING = {"set", "createDomain", "deleteDomain", "deleteAllDomains", "seqaware", "createConf", "deleteConf", "saveConf",
                "restoreConf", "addElem", "removeElem", "split", "setElemSeq", "domtrip", "domone", "badimport", "partimport"}
EDITS = {"createDomain", "deleteDomain", "deleteAllDomains", "renameDomain", "seqaware", "createConf", "deleteConf",
         "renameConf", "saveConf", "addElem", "removeElem", "split", "setElemSeq", "setRule", "clearRule", "setc"}

# commands which have nothing to tell
DONE = {"setTuningMode", "setValueSpace", "setOutputRawFormat", "setAutoSync", "sync", "createDomain", "deleteDomain", "deleteAllDomains",
        "renameDomain", "setSequenceAwareness", "addElement", "removeElement", "splitDomain", "createConfiguration", "deleteConfiguration",
        "renameConfiguration", "saveConfiguration", "restoreConfiguration", "setElementSequence", "setRule", "clearRule", "setElementBytes",
        "setElementXML", "setParameter", "setConfigurationParameter", "exportDomainsXML", "importDomainsXML", "exportDomainsWithSettingsXML",
        "exportDomainWithSettingsXML", "importDomainsWithSettingsXML", "importDomainWithSettingsXML", "setDomainsWithSettingsXML",
        "setDomainWithSettingsXML"}
# commands and the number of arguments they need (documentation of the remote interface)
COMMANDS = {'version': 0, 'status': 0, 'setTuningMode': 1, 'getTuningMode': 0, 'setValueSpace': 1, 'getValueSpace': 0, 'setOutputRawFormat': 1, 'getOutputRawFormat': 0, 'setAutoSync': 1, 'getAutoSync': 0, 'sync': 0, 'listCriteria': 0, 'listDomains': 0, 'dumpDomains': 0, 'createDomain': 1, 'deleteDomain': 1, 'deleteAllDomains': 0, 'renameDomain': 2, 'setSequenceAwareness': 2, 'getSequenceAwareness': 1, 'listDomainElements': 1, 'addElement': 2, 'removeElement': 2, 'splitDomain': 2, 'listConfigurations': 1, 'createConfiguration': 2, 'deleteConfiguration': 2, 'renameConfiguration': 3, 'saveConfiguration': 2, 'restoreConfiguration': 2, 'setElementSequence': 3, 'getElementSequence': 2, 'setRule': 3, 'clearRule': 2, 'getRule': 2, 'listElements': 1, 'listParameters': 1, 'getElementStructureXML': 1, 'getElementBytes': 1, 'setElementBytes': 2, 'getElementXML': 1, 'setElementXML': 2, 'dumpElement': 1, 'getElementSize': 1, 'showProperties': 1, 'getParameter': 1, 'setParameter': 2, 'listBelongingDomains': 1, 'listAssociatedDomains': 1, 'getConfigurationParameter': 3, 'setConfigurationParameter': 4, 'showMapping': 1, 'listAssociatedElements': 0, 'listConflictingElements': 0, 'listRogueElements': 0, 'exportDomainsXML': 1, 'importDomainsXML': 1, 'exportDomainsWithSettingsXML': 1, 'exportDomainWithSettingsXML': 2, 'importDomainsWithSettingsXML': 1, 'importDomainWithSettingsXML': 1, 'getDomainsWithSettingsXML': 0, 'getDomainWithSettingsXML': 1, 'setDomainsWithSettingsXML': 1, 'setDomainWithSettingsXML': 1, 'getSystemClassXML': 0, 'getDomainsXML': 0}
PACKED = {"setRule": 3, "setParameter": 2, "setConfigurationParameter": 4}
