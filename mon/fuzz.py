"""Hostile inputs (P18): arbitrary arguments, documents and files; the sanitizers and the host's survival decide."""
import copy, os, re, random, shutil
import xml.etree.ElementTree as ET
from . import engine as E
from . import rules as R
from .faults import _read, _write
from .special import fresh_dir
from .world import World, Mismatch, COMMANDS, write_files
from .lab import write_layout

NUMS = ["-1", "0", "1", "7", "8", "9", "15", "16", "17", "31", "32", "33", "63", "64", "65", "127", "128", "129", "255", "256", "32767", "32768", "65535", "65536", "2147483647",
        "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615",
        "18446744073709551616", "0x7f", "0xFF", "0xFFFFFFFF", "0x100000000", "0xFFFFFFFFFFFFFFFFFF", "-0x1", "0x", "1e3", "1e308", "1e309", "-1e309", "1e-320", "nan", "NaN", "inf", "-inf", "INFINITY",
        "+1", "-0", "00", "010", " 1", "1 ", "1.", ".5", "1.5", "0.1e", "1,5", "١", "1\0", "0b1", "1_000", "--1", "- 1"]
BITS = ["", " ", "\t", "\n", "\0", "/", "//", "..", ".", "/..", "%", "%s%n%x", "\"", "'", "<", ">", "&", "&amp;", "&#0;", "&x;", "]]>", "{", "}", "{}", "All{", "Any{}", ":", ",", "=", "|", "||",
        "\\", "é", "€", "\U0001F600", "\udcff", "\udc80\udcfe", "a" * 300, "x" * 5000, "0", "-1", "None", "true", "on", "csv", "CSV", "xml", "\r\n", "\x7f", "\x01", "\x1b[0m", "/0", "/-1", "/99999999999999999999", "[0]", "*"]
WORDS = ["Is", "IsNot", "Includes", "Excludes", "All", "Any", "AllTypes", "hex", "raw", "real", "dec", "on", "off", "MON", "Virtual"]

def junk(r):
    c = r.random()
    if c < .4:
        return r.choice(BITS)
    if c < .7:
        return r.choice(NUMS)
    if c < .8:
        return r.choice(WORDS)
    return "".join(r.choice("aA0 /{},:|\"'<>&%\\\n\t\x01\udcffé-.x") for _ in range(r.choice([1, 3, 10, 60, 400])))

def mut(r, s, pool=None):
    """A damaged copy of a text."""
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        k = r.randint(0, len(s))
        e = min(len(s), k + r.choice([1, 1, 2, 8, 50]))
        c = r.random()
        if c < .25:
            s = s[:k] + junk(r) + s[k:]
        elif c < .45:
            s = s[:k] + s[e:]
        elif c < .6:
            s = s[:k]
        elif c < .7:
            s = s[:e] + s[k:e] * r.choice([1, 1, 2, 20]) + s[e:]
        elif c < .8 and s:
            k = min(k, len(s) - 1)
            o = ord(s[k])
            s = s[:k] + chr((o ^ 1 << r.randrange(7)) & 127 if o < 128 else 63) + s[k + 1:]
        elif c < .9:
            m = list(re.finditer(r"-?\d+", s))
            if m:
                m = r.choice(m)
                s = s[:m.start()] + r.choice(NUMS) + s[m.end():]
        elif pool:
            t = r.choice(pool)
            k2 = r.randint(0, len(t))
            s = s[:k] + t[k2:k2 + 200]
    return s[:200000]

ATTRS = ["Name", "Type", "Size", "ArrayLength", "MaxLength", "Min", "Max", "Signed", "Mapping", "Pos", "Integral", "Fractional", "Unit", "Literal", "Numerical", "Path", "Extends", "Description", "SequenceAware",
         "SystemClassName", "ServerPort", "TuningAllowed", "SelectionCriterion", "MatchesWhen", "Value", "Slope", "SlopeNumerator", "SlopeDenominator", "Offset", "LogarithmBase", "FloorValue", "ValueSpace", "BindAddress"]
TAGS = ["SystemClass", "Subsystem", "ComponentLibrary", "ComponentType", "Component", "InstanceDefinition", "ParameterBlock", "BitParameterBlock", "BitParameter", "BooleanParameter", "IntegerParameter", "FixedPointParameter",
        "FloatingPointParameter", "EnumParameter", "ValuePair", "StringParameter", "LinearAdaptation", "LogarithmicAdaptation", "SubsystemInclude", "ComponentTypeSet", "ConfigurableDomains", "ConfigurableDomain",
        "Configurations", "Configuration", "CompoundRule", "SelectionCriterionRule", "ConfigurableElements", "ConfigurableElement", "Settings", "ParameterFrameworkConfiguration", "SubsystemPlugins", "Location", "Plugin", "Nosuch"]
MAPS = ["Obj", "Obj:", "Obj:1", "Small:%1", "Req:%1%2%3%4", "Back:%", "Amend1:", "Amend1:a,Amend2", ",", ":", "::", "Obj:a:b,c", "Obj:%9", "Obj:%%", "Nosuch:1", "Amend1:x,Obj:%1", ",,,", "Obj:%1,Obj:%2", " Obj:1", "Obj:\"a,b\"", "Obj:'", "Amend1:%1"]

def text_ok(s):
    return "".join(c for c in s if c in "\t\n\r" or ord(c) >= 32 and not 0xd800 <= ord(c) < 0xe000)

def value(r, a):
    c = r.random()
    if a == "Mapping" and c < .7:
        return r.choice(MAPS)
    if c < .45:
        return text_ok(r.choice(NUMS))
    if c < .6:
        return r.choice(["", "true", "false", "0", "1", r.choice(WORDS)])
    return text_ok(junk(r))

def xmut(r, x, pool=None):
    """Structural damage to a document, in place."""
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        l = list(x.iter())
        if len(l) > 4000:
            return
        par = {c: p for p in l for c in p}
        e = r.choice(l)
        p = par.get(e)
        c = r.random()
        if c < .32 and e.attrib:
            a = r.choice(list(e.attrib))
            v = e.get(a)
            o = [y.get(a) for y in l if y.get(a) is not None]
            e.set(a, r.choice([value(r, a), value(r, a), r.choice(o), text_ok(mut(r, v))]))
        elif c < .4:
            a = r.choice(ATTRS)
            e.set(a, value(r, a))
        elif c < .48 and e.attrib:
            e.attrib.pop(r.choice(list(e.attrib)))
        elif c < .56 and p is not None:
            p.remove(e)
        elif c < .64 and p is not None:
            p.insert(r.randint(0, len(p)), copy.deepcopy(e))
        elif c < .74:
            t = r.choice(l)
            if t is not x and not any(y is e for y in t.iter()) and len(list(t.iter())) < 200:
                e.insert(r.randint(0, len(e)), copy.deepcopy(t))
                if r.random() < .5 and t in par:
                    try:
                        par[t].remove(t)
                    except ValueError:
                        pass
        elif c < .8:
            e.tag = r.choice(TAGS)
        elif c < .9:
            e.text = text_ok(r.choice([junk(r), mut(r, e.text or "")]))
        elif c < .94 and p is not None:     # deeper
            q = ET.Element(e.tag, e.attrib)
            p.remove(e)
            p.append(q)
            n = q
            for _ in range(r.choice([1, 2, 40])):
                n = ET.SubElement(n, e.tag, e.attrib)
            n.append(e)
        else:
            e.append(ET.Element(r.choice(TAGS), {r.choice(ATTRS): value(r, "Name")}))

PROLOGS = ['<?xml version="1.0" encoding="UTF-16"?>', '<?xml version="1.0" encoding="nosuch"?>', '<?xml version="9.9"?>', '<!DOCTYPE a [<!ENTITY b "&c;"><!ENTITY c "&b;">]>',
           '<!DOCTYPE a [<!ENTITY e SYSTEM "nosuch.xml">]>', '<!DOCTYPE a [<!ENTITY x "xxxxxxxxxx"><!ENTITY y "&x;&x;&x;&x;">]>', "\ufeff", "<!-- -- -->", "<?pi ?>", " ", "\n<?xml version='1.0'?>"]

def doc(r, t, pool=None):
    """A damaged document."""
    if r.random() < .75:
        try:
            x = ET.fromstring(t.encode("utf-8", "surrogateescape"))
            xmut(r, x, pool)
            t = '<?xml version="1.0" encoding="UTF-8"?>\n' + ET.tostring(x, encoding="unicode")
            if r.random() < .9:
                return tame(t)
        except (ET.ParseError, ValueError, LookupError):
            pass
    c = r.random()
    if c < .1:
        t = r.choice(PROLOGS) + t.split("?>", 1)[-1]
        if r.random() < .5:
            t = t.replace('="', '="' + r.choice(["&e;", "&y;", "&b;", "&lt;"]), 1)
    else:
        t = mut(r, t, pool)
    return tame(t)

def tame(t):
    """What cannot be judged is left out: arrays and strings which do not fit in memory, files outside of the scratch directory."""
    big = [1]
    def f(m):
        n = m.group(3).strip()
        try:
            v = int(float(n)) if not n.lower().startswith("0x") else int(n, 16)
        except (ValueError, OverflowError):
            v = int(re.sub(r"\D", "", n)[:30] or "0")
        if v < 0 or v >= 1 << 64 or v <= 8:
            return m.group(0)
        if v <= 300 and big[0]:
            big[0] = 0
            return m.group(0)
        return m.group(1) + m.group(2) + str(v % 9) + m.group(2)
    t = re.sub(r'((?:ArrayLength|MaxLength)\s*=\s*)(["\'])([^"\'<]*)\2', f, t)
    return re.sub(r'((?:ArrayLength|MaxLength)\s*=\s*["\'])(&[^"\']*)', r'\1 3', t)

def bulk(texts):
    """Estimated number of elements a structure expands to."""
    types, roots = {}, []
    for t in texts:
        try:
            x = ET.fromstring(t.encode("utf-8", "surrogateescape"))
        except (ET.ParseError, ValueError, LookupError):
            continue
        roots.append(x)
        for e in x.iter("ComponentType"):
            types.setdefault(e.get("Name"), []).append(e)
    memo = {}
    def typ(n, depth):
        if n not in memo:
            memo[n] = 1
            memo[n] = max([w(e, depth + 1) for e in types.get(n, [])] or [0])
        return memo[n]
    def w(e, depth=0):
        try:
            a = max(1, int(float(e.get("ArrayLength", "1").strip() or "1")))
        except (ValueError, OverflowError):
            try:
                a = int(e.get("ArrayLength"), 0)
            except ValueError:
                a = 1
        n = 1 + sum(w(c, depth + 1) for c in e) if depth < 300 else 1
        for k in ("Type", "Extends"):
            if e.tag != "Subsystem" and e.get(k) and depth < 300:
                n += typ(e.get(k), depth)
        return min(a * n, 1 << 60)
    return sum(w(x) for x in roots)

# kinds of arguments
SPEC = {"setTuningMode": "m", "setValueSpace": "m", "setOutputRawFormat": "m", "setAutoSync": "m", "listCriteria": "m", "createDomain": "d", "deleteDomain": "d", "renameDomain": "dd",
        "setSequenceAwareness": "dm", "getSequenceAwareness": "d", "listDomainElements": "d", "addElement": "dp", "removeElement": "dp", "splitDomain": "dp", "listConfigurations": "d",
        "createConfiguration": "dc", "deleteConfiguration": "dc", "renameConfiguration": "dcc", "saveConfiguration": "dc", "restoreConfiguration": "dc", "setElementSequence": "dcp*", "getElementSequence": "dc",
        "setRule": "dcr", "clearRule": "dc", "getRule": "dc", "listElements": "p", "listParameters": "p", "getElementStructureXML": "p", "getElementBytes": "p", "setElementBytes": "pb", "getElementXML": "p",
        "setElementXML": "px", "dumpElement": "p", "getElementSize": "p", "showProperties": "p", "getParameter": "p", "setParameter": "pv*", "listBelongingDomains": "p", "listAssociatedDomains": "p",
        "getConfigurationParameter": "dcp", "setConfigurationParameter": "dcpv", "showMapping": "p", "exportDomainsXML": "o", "importDomainsXML": "f", "exportDomainsWithSettingsXML": "o",
        "exportDomainWithSettingsXML": "do", "importDomainsWithSettingsXML": "f", "importDomainWithSettingsXML": "fm", "getDomainWithSettingsXML": "d", "setDomainsWithSettingsXML": "D", "setDomainWithSettingsXML": "Dm"}
API = {"setTuningMode": "B", "setValueSpace": "B", "setOutputRawFormat": "B", "setAutoSync": "B", "sync": "", "get": "p", "set": "pv", "getc": "dcp", "setc": "dcpv", "mapping": "p", "createDomain": "d",
       "deleteDomain": "d", "renameDomain": "dd", "deleteAllDomains": "", "setSeq": "dB", "getSeq": "d", "createConf": "dc", "deleteConf": "dc", "renameConf": "dcc", "saveConf": "dc", "restoreConf": "dc",
       "addElem": "dp", "removeElem": "dp", "split": "dp", "setElemSeq": "dcp*", "setRule": "dcr", "getRule": "dc", "clearRule": "dc", "importDomains": "DBZ", "importDomain": "DBBZ", "importDomain2": "DB", "exportDomains": "oBB", "exportDomain": "odBB"}
HANDLE = {"drop": "", "rogue": "", "info": "", "map": "v", "structxml": "", "getxml": "", "setxml": "x", "getbytes": "", "setbytes": "b", "setbool": "B", "setuint": "n", "setint": "n", "setdouble": "n",
          "setstring": "v", "getbool": "", "getuint": "", "getint": "", "getdouble": "", "getstring": "", "setbools": "B*", "setuints": "n*", "setints": "n*", "setdoubles": "n*", "setstrings": "v*", "getbools": "", "getuints": "", "getints": "",
          "getdoubles": "", "getstrings": ""}

class Fuzz:
    def __init__(self, ctx, r, h, iid, d, paths, domains, confs, crits, vals):
        self.ctx, self.r, self.h, self.iid, self.d = ctx, r, h, iid, d
        self.paths, self.domains, self.confs, self.crits, self.vals = paths or ["/test"], domains, confs, crits, vals
        self.docs, self.xmls = [], []       # what the framework itself wrote
        self.hot = .3                       # share of damaged arguments
        self.n = 0
        self.started = True

    def arg(self, k):
        r = self.r
        hot = r.random() < self.hot
        if k == "d":
            v = r.choice(self.domains) if self.domains and r.random() < .75 else "N%d" % r.randrange(6)
        elif k == "c":
            v = r.choice(self.confs) if self.confs and r.random() < .6 else "c%d" % r.randrange(4)
        elif k == "p":
            v = r.choice(self.paths)
            if r.random() < .1:
                v += r.choice(["/0", "/1", "/-1", "/x", "/", "/4294967296", "/00"])
        elif k == "v":
            v = r.choice(self.vals) if self.vals and r.random() < .4 else r.choice(NUMS) if r.random() < .8 else " ".join(r.choice(NUMS) for _ in range(r.randint(0, 40)))
        elif k == "n":
            return r.choice(NUMS)
        elif k == "r":
            v = R.gen_rule(r, self.crits).txt(r) if self.crits and r.random() < .8 else "".join(r.choice(["All{", "Any{", "}", ",", " ", "Crit", " Is ", " Includes ", "x", "{", "}}", "All"]) for _ in range(r.randint(0, 14)))
        elif k == "x":
            v = r.choice(self.xmls) if self.xmls else "<a/>"
            return doc(r, v, self.xmls) if r.random() < .8 else v
        elif k == "D":
            v = r.choice(self.docs) if self.docs else "<ConfigurableDomains/>"
            return doc(r, v, self.docs) if r.random() < .8 else v
        elif k == "b":
            n = r.choice([0, 1, 2, 3, 4, 8, 17, 64])
            v = " ".join("0x%02X" % r.randrange(256) for _ in range(n))
        elif k in "mB":
            if k == "B":
                return r.choice(["0", "1"])
            v = r.choice(["on", "off", "raw", "real", "hex", "dec", "CSV", "XML", "true", "1"])
        elif k == "Z":
            return "0"
        elif k == "f":
            p = os.path.join(self.d, "in%d.xml" % r.randrange(4))
            _write(p, self.arg("D"))
            return r.choice([p, p, p, p, p + "x", self.d, p + "/x", "", "in.xml", p + "\0z"])
        elif k == "o":
            return self.outfile()
        else:
            raise AssertionError(k)
        if hot:
            return mut(r, v, self.paths) if r.random() < .8 else junk(r)
        return v

    def outfile(self):
        """Destinations stay in the scratch directory."""
        return os.path.join(self.d, self.r.choice(["out.xml", "out.xml", "o\né.xml", "nosuch/out.xml", "", "structure.xml/x", "out dir.xml", "a" * 300]))

    def args(self, spec, export=None):
        r = self.r
        l = []
        for i, k in enumerate(spec):
            if k == "*":
                for _ in range(r.choice([0, 1, 2, 3, 20])):
                    l.append(self.arg(spec[i - 1]))
            else:
                l.append(self.arg(k))
        return l

    def one(self):
        r, h, i = self.r, self.h, self.iid
        self.n += 1
        c = r.random()
        if c < .4:
            name = r.choice(list(COMMANDS))
            sp = SPEC.get(name, "")
            a = self.args(sp)
            if "o" not in sp and r.random() < .1:
                c = r.random()
                if c < .4 and a:
                    a.pop()
                elif c < .8:
                    a.append(junk(r))
                else:
                    r.shuffle(a)
            if "o" not in sp and "xport" not in name and r.random() < .02:
                name = mut(r, name)
                if "xport" in name:
                    return
            self.say("cmd", name, *a)
            ok, t = h.call("cmd", i, name, *a)
            self.ctx.note("commands")
            if not ok:
                self.ctx.note("commands refused")
                if not t or not t[0].strip():
                    raise Mismatch("fuzz", "error", "%s %r failed without a word" % (name, [x[:200] for x in a]))
            elif name in ("getElementXML",):
                self.keep(self.xmls, t[0])
            elif "omain" in name and "SettingsXML" in name and name.startswith("get"):
                self.keep(self.docs, t[0])
        elif c < .6:
            name = r.choice(list(API))
            a = self.args(API[name])
            if name in ("exportDomains", "exportDomain"):
                # serialized to the string half of the time
                pass
            self.say("api", name, *a)
            ok, t = h.call("api", i, name, *a)
            self.ctx.note("calls")
            if not ok:
                self.ctx.note("calls refused")
                if name not in ("mapping", "getRule", "restoreConf") and not (t and t[0].strip()):
                    raise Mismatch("fuzz", "error", "%s %r failed without a word" % (name, [x[:200] for x in a]))
        elif c < .88:
            p = self.arg("p")
            name = r.choice(list(HANDLE))
            a = self.args(HANDLE[name])
            self.say("h", p, name, *a)
            ok, t = h.callb("h", i, p, name, *(x.encode("utf-8", "surrogateescape") for x in a))
            self.ctx.note("handle calls")
            if not ok:
                self.ctx.note("handle calls refused")
                if name not in ("map",) and not (t and t[0].strip()):
                    raise Mismatch("fuzz", "error", "handle %r %s %r failed without a word" % (p, name, [x[:200] for x in a]))
            elif name == "getxml" and t:
                self.keep(self.xmls, t[0].decode("utf-8", "surrogateescape"))
        elif c < .93 and self.crits:
            cr = r.choice(self.crits)
            v = r.choice([R.gen_state(r, cr), r.choice([-1, 0, 1, 5, 1 << 30, -(1 << 31), (1 << 31) - 1])])
            self.say("criterion", cr.name, v)
            h.call("setcrit", i, cr.name, v)
            h.call("getcrit", i, cr.name)
        elif c < .97 and self.started:      # a broken instance is not to be applied
            self.say("apply")
            h.call("apply", i)
            self.ctx.note("applications")
        else:
            h.call("logs", i)
            h.raw("hw", "events", i)

    def say(self, *a):
        self.ctx.log.append(" ".join(repr(x[:160] if isinstance(x, str) else x) for x in a))

    def keep(self, l, t):
        if len(l) < 8:
            l.append(t)
        else:
            l[self.r.randrange(8)] = t

    def look(self):
        """What exists, as the framework says it."""
        h, i = self.h, self.iid
        ok, t = h.call("cmd", i, "listDomains")
        if ok:
            self.domains = [re.sub(r" \[sequence aware\]$", "", x) for x in t[0].split("\n") if x][:20] or self.domains
        if self.domains:
            ok, t = h.call("cmd", i, "listConfigurations", self.r.choice(self.domains))
            if ok:
                self.confs = ([x for x in t[0].split("\n") if x] + self.confs)[:12]
        ok, t = h.call("api", i, "exportDomains", "x", "1", "0")
        if ok:
            self.keep(self.docs, t[0])
        p = self.r.choice(self.paths)
        ok, t = h.call("cmd", i, "getElementXML", p)
        if ok:
            self.keep(self.xmls, t[0])

def calls(ctx, rng, case, nops=60):
    """Hostile arguments and documents on a sound structure; what is stored stays readable."""
    h = ctx.host()
    d = fresh_dir(ctx, "z")
    os.makedirs(os.path.join(d, "out"))
    prof = dict(weights={}, initial=.8, maxleaves=rng.choice([6, 20, 40]), validate=rng.random() < .1)
    if prof["validate"]:
        prof["initial"] = 0
    w = World(h, rng, d, ctx.out, prof, 1, ctx.note)
    w.log = ctx.log
    ctx.op = "setup"
    try:
        w.setup()
        ctx.op = "fuzz"
        z = Fuzz(ctx, rng, h, 1, os.path.join(d, "out"), [n.path for n in w.st.nodes], [x.name for x in w.domains], [c.name for x in w.domains for c in x.confs], w.crits,
                 [n.gen_text(rng, False, rng.random() < .8) for n in rng.sample(w.st.leaves, min(6, len(w.st.leaves)))])
        z.hot = rng.choice([.03, .1, .3, .6])
        if rng.random() < .85:
            h.call("api", 1, "setTuningMode", "1")
        z.look()
        for k in range(rng.randint(nops // 3, nops)):
            z.one()
            if rng.random() < .1:
                z.look()
        h.call("api", 1, "setValueSpace", rng.choice("01"))
        for n in w.st.leaves:
            ok, t = h.call("api", 1, "get", n.path)
            if not ok:
                raise Mismatch("fuzz", "unreadable", "%s cannot be read any more: %s" % (n.path, t[0]))
            ctx.note("values still readable")
        for n in rng.sample(w.st.nodes, min(4, len(w.st.nodes))):
            ok, t = h.call("cmd", 1, "getElementXML", n.path)
            if not ok:
                raise Mismatch("fuzz", "unreadable", "the settings of %s cannot be read any more: %s" % (n.path, t[0]))
        if w.st.size:
            ok, f = h.callb("h", 1, "/test", "getbytes")
            if not ok or len(f[0]) != w.st.size:
                raise Mismatch("fuzz", "unreadable", "bytes of the whole: %s, %d bytes of %d" % (ok, len(f[0]), w.st.size))
    finally:
        if ctx._host is not None and h.p.poll() is None:
            h.call("del", 1)

FILES = ["config.xml", "structure.xml", "domains.xml", "sub"]

def files(ctx, rng, case, nops=25):
    """Damaged configuration, structure and domain files; whatever starts is used."""
    h = ctx.host()
    d = fresh_dir(ctx, "zf")
    os.makedirs(os.path.join(d, "out"))
    done = []
    def writer(w, st, doc_):
        cfg = write_layout(rng, d, st, doc_, w.plugin_dir, w.note) if rng.random() < .2 else write_files(d, st, doc_, w.plugin_dir, tuning="true", split=rng.random() < .7)
        l = [os.path.join(a, x) for a, _, b in os.walk(d) for x in b if x.endswith(".xml")]
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            p = rng.choice([x for x in l if os.path.basename(x) != "config.xml"] or l) if rng.random() < .85 else cfg
            if os.path.basename(p) == "config.xml":
                if rng.random() < .6:       # the folder of the plugins stays what it is
                    t = doc(rng, _read(p))
                    if 'Folder="%s"' % w.plugin_dir in t and t.count("Folder") == _read(p).count("Folder"):
                        _write(p, t)
                        done.append("config")
                continue
            before = _read(p)
            t = doc(rng, before)
            _write(p, t)
            if bulk([_read(x) for x in l if os.path.basename(x) not in ("config.xml", "domains.xml")]) > 60000:
                _write(p, before)       # would be judged by its size only
                continue
            done.append(os.path.relpath(p, d))
            ctx.log.append("%s: %s" % (done[-1], t if len(t) < 3000 else t[:3000]))
        return cfg
    class Stop(Exception):
        pass
    prof = dict(weights={}, initial=.7, maxleaves=rng.choice([4, 12, 30]), writer=writer, validate=rng.random() < .08,
                flags={"missing": rng.choice("01"), "settings": rng.choice("01")})
    w = World(h, rng, d, ctx.out, prof, 1, ctx.note)
    w.log = ctx.log
    ctx.op = "start"
    def on_start(ok, f):
        ctx.note("damaged starts accepted" if ok else "damaged starts refused")
        if not ok and not f[0].strip():
            raise Mismatch("fuzz", "error", "the start failed without a word")
        if not ok:
            m = re.sub(r"[^A-Za-z ]", "", f[0].strip().split("\n")[-1])[:30]
            ctx.log.append("refused: " + f[0][:300])
        raise Stop(ok)
    w.on_start = on_start
    try:
        try:
            w.setup()
        except Stop as e:
            started = e.args[0]
        ctx.op = "fuzz"
        paths = [n.path for n in w.st.nodes]
        if started:
            todo, l = ["/"], []
            while todo and len(l) < 80:
                p = todo.pop(rng.randrange(len(todo)))
                ok, t = h.call("cmd", 1, "listElements", p)
                if ok:
                    for x in t[0].split("\n"):
                        x = x.split(" ")[0].strip()
                        if x:
                            q = x if x.startswith("/") else p.rstrip("/") + "/" + x
                            l.append(q)
                            todo.append(q)
                ok, t = h.call("cmd", 1, "listParameters", p)
                if ok:
                    l += [x.split(" ")[0] for x in t[0].split("\n") if x.startswith("/")][:30]
            paths = l or paths
        z = Fuzz(ctx, rng, h, 1, os.path.join(d, "out"), paths, [x.name for x in w.domains], [c.name for x in w.domains for c in x.confs], w.crits,
                 [n.gen_text(rng, False, True) for n in rng.sample(w.st.leaves, min(6, len(w.st.leaves)))])
        z.hot = rng.choice([.02, .02, .2])
        z.started = started
        if started:
            h.call("api", 1, "setTuningMode", "1")
            z.look()
        for k in range(rng.randint(nops // 3, nops) if started else rng.choice([0, 0, 0, 3, 8])):
            z.one()
        if rng.random() < .1:
            h.call("start", 1)
    finally:
        if ctx._host is not None and h.p.poll() is None:
            h.call("del", 1)
