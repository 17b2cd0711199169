"""Spoiled files: documents a start, or an import, has to refuse."""
import os, re, copy, shutil
import xml.etree.ElementTree as ET

def tos(root):
    return '<?xml version="1.0" encoding="UTF-8"?>\n' + ET.tostring(root, encoding="unicode")

def truncated(r, t):
    k = t.rindex("<")
    return t[:r.randint(0, k)]

GARBAGE = ["", "\n", "not xml", "<", "<a></b>", "\x00\x01\x02", "<?xml version=\"1.0\"?>", "<a/><b/>", "{}"]

# ---- domain documents: kind -> edit(r, root) returning True when done
def _pick(r, l):
    l = list(l)
    return r.choice(l) if l else None

def d_path(r, x):
    e = _pick(r, x.findall(".//ConfigurableElements/ConfigurableElement"))
    if e is None:
        return False
    p = e.get("Path")
    e.set("Path", r.choice([p + "/nosuch", p[:-1] + "~", p[1:], "/other" + p, "", "nosuch"]))
    return True

def d_nopath(r, x):
    e = _pick(r, x.findall(".//ConfigurableElement"))
    if e is None:
        return False
    e.attrib.pop("Path")
    return True

def d_spath(r, x):
    e = _pick(r, x.findall(".//Settings/Configuration/ConfigurableElement"))
    if e is None:
        return False
    e.set("Path", e.get("Path") + "/nosuch")
    return True

def d_rule(r, x):
    e = _pick(r, x.findall(".//SelectionCriterionRule"))
    if e is None:
        return False
    a = r.choice(["SelectionCriterion", "MatchesWhen", "Value"])
    e.set(a, r.choice(["No" + e.get(a), e.get(a) + "x", "@"]))
    return True

def d_compound(r, x):
    e = _pick(r, x.findall(".//CompoundRule"))
    if e is None:
        return False
    if r.random() < .5:
        e.set("Type", r.choice(["any", "None", "", "AllAny"]))
    else:
        e.append(ET.Element("Nosuch"))
    return True

def d_value(r, x):
    e = _pick(r, [l for l in x.findall(".//Settings//*") if l.tag in ("IntegerParameter", "BooleanParameter", "FixedPointParameter", "FloatingPointParameter", "BitParameter", "EnumParameter")])
    if e is None:
        return False
    e.text = r.choice(["zzz", "1 2 3 4 5 6 7 8 9", "--1", "0x", "1e999999x"])
    return True

def d_twice(r, x):
    e = _pick(r, [c for c in x.findall("./ConfigurableDomain") + x.findall(".//Configurations/Configuration") + x.findall(".//ConfigurableElements/ConfigurableElement")])
    if e is None:
        return False
    par = {c: p for p in x.iter() for c in p}
    par[e].append(copy.deepcopy(e))
    return True

def d_missing(r, x):
    """settings lack something"""
    e = _pick(r, x.findall(".//Settings/Configuration") + x.findall(".//Settings/Configuration/ConfigurableElement") +
              x.findall(".//Settings/Configuration/ConfigurableElement/*") + x.findall(".//Settings/Configuration/ConfigurableElement//*/*"))
    if e is None or e.tag in ("SystemClass", "Subsystem") and False:
        return False
    par = {c: p for p in x.iter() for c in p}
    if par[e].tag == "Configuration" and False:
        return False
    par[e].remove(e)
    return True

def d_extra(r, x):
    c = _pick(r, [e for e in x.findall(".//Settings/Configuration/ConfigurableElement//*") if len(e)])
    if c is None:
        return False
    c.append(copy.deepcopy(r.choice(list(c))))
    return True

def d_unknownconf(r, x):
    e = _pick(r, x.findall(".//Settings/Configuration"))
    if e is None:
        return False
    e.set("Name", e.get("Name") + "x")
    return True

def d_rename(r, x):
    e = _pick(r, x.findall(".//Settings/Configuration/ConfigurableElement//*"))
    if e is None:
        return False
    e.set("Name", e.get("Name") + "x")
    return True

def d_tag(r, x):
    e = _pick(r, x.findall(".//Settings/Configuration/ConfigurableElement//*"))
    if e is None:
        return False
    e.tag = r.choice(["Nosuch", "BooleanParameter" if e.tag != "BooleanParameter" else "IntegerParameter"] +
                     (["Component", "ParameterBlock"] if e.tag not in ("Component", "ParameterBlock") else ["BitParameterBlock"]))
    return True

def d_order(r, x):
    e = _pick(r, [e for e in x.findall(".//Settings/Configuration/ConfigurableElement//*") if len(e) > 1])
    if e is None:
        return False
    c = r.choice(list(e))
    k = list(e).index(c)
    e.remove(c)
    e.insert((k + r.randint(1, len(e))) % (len(e) + 1), c)
    return True

def d_root(r, x):
    x.tag = r.choice(["Domains", "ConfigurableDomain", "SystemClass", "ConfigurableDomainsX", "MyConfigurableDomains", "configurableDomains"])
    return True

def d_class(r, x):
    x.set("SystemClassName", r.choice(["other", x.get("SystemClassName") + "x", ""]))
    return True

def d_noname(r, x):
    e = _pick(r, x.findall("./ConfigurableDomain") + x.findall(".//Configurations/Configuration") + x.findall(".//Settings/Configuration"))
    if e is None:
        return False
    e.attrib.pop("Name")
    return True

def d_seq(r, x):
    e = _pick(r, x.findall("./ConfigurableDomain"))
    if e is None:
        return False
    e.set("SequenceAware", r.choice(["maybe", "", "2", "True"]))
    return True

def d_alien(r, x):
    e = _pick(r, [x] + x.findall(".//Configurations") + x.findall(".//ConfigurableElements") + x.findall("./ConfigurableDomain"))
    e.append(ET.Element(r.choice(["Nosuch", "BooleanParameter", "ConfigurableElements" if e is x else "Alien"])))
    return True

DOMAIN = dict(path=d_path, nopath=d_nopath, spath=d_spath, rule=d_rule, compound=d_compound, value=d_value, twice=d_twice, missing=d_missing, extra=d_extra,
              unknownconf=d_unknownconf, rename=d_rename, tag=d_tag, root=d_root, cls=d_class, noname=d_noname, seq=d_seq, alien=d_alien, order=d_order)

def spoil_domains(r, text, kind=None):
    """-> (kind, spoiled text) or (kind, None) when there is nothing of that kind to spoil"""
    kind = kind or r.choice(list(DOMAIN) + ["truncated", "garbage"])
    if kind == "truncated":
        return kind, truncated(r, text)
    if kind == "garbage":
        return kind, r.choice(GARBAGE)
    x = ET.fromstring(text.encode("utf-8", "surrogateescape"))
    return kind, tos(x) if DOMAIN[kind](r, x) else None

# ---------------------------------------------------------------- structure and configuration files
def _write(p, t):
    with open(p, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(t)

def _read(p):
    with open(p, encoding="utf-8", errors="surrogateescape") as f:
        return f.read()

LAST = [""]         # the element edited last, for reports

def _edit(r, p, find, change):
    """Edit one element of a file -> False when there is none"""
    x = ET.fromstring(_read(p).encode("utf-8", "surrogateescape"))
    e = _pick(r, find(x))
    if e is None:
        return False
    change(x, e)
    LAST[0] = ET.tostring(e, encoding="unicode")[:300]
    _write(p, tos(x))
    return True

def broken_file(r, p, directory=True):
    """The file cannot be read or is no document."""
    c = r.choice(["absent", "directory", "truncated", "garbage", "garbage"])
    if c == "truncated":
        _write(p, truncated(r, _read(p).rstrip()))
    elif c == "garbage":
        _write(p, r.choice(GARBAGE))
    else:
        os.unlink(p)
        if c == "directory":
            os.mkdir(p)
    return c

LEAVES = ("IntegerParameter", "BooleanParameter", "FixedPointParameter", "FloatingPointParameter", "EnumParameter", "StringParameter", "BitParameterBlock")

def _parents(x):
    return {c: p for p in x.iter() for c in p}

def struct_fault(r, d, st):
    """-> name of the fault put in the structure files, or None"""
    import glob
    top = os.path.join(d, "structure.xml")
    subs = sorted(glob.glob(os.path.join(d, "sub*.xml")))
    sub = r.choice(subs)
    def decl(*tags):
        return lambda x: [e for e in x.iter() if e.tag in tags]
    def setattr_(a, vals):
        return lambda x, e: e.set(a, r.choice(vals))
    def drop(x, e):
        _parents(x)[e].remove(e)
    c = r.choice(STRUCT)
    if c == "top file":
        return c + " " + broken_file(r, top)
    if c == "included file":
        return c + " " + broken_file(r, sub)
    if c == "top root":
        ok = _edit(r, top, lambda x: [x], lambda x, e: setattr(e, "tag", r.choice(["Subsystem", "System", "ParameterFrameworkConfiguration", "SystemClassX", "MySystemClass", "systemClass"])))
    elif c == "top name":
        ok = _edit(r, top, lambda x: [x], setattr_("Name", ["", "other", st.name + "x", st.name.upper() + "_"]))
    elif c == "included root":
        ok = _edit(r, sub, lambda x: [x], lambda x, e: setattr(e, "tag", r.choice(["SystemClass", "ComponentTypeSet", "Nosuch", "SubsystemX", "MySubsystem"])))
    elif c == "include path":
        ok = _edit(r, top, decl("SubsystemInclude"), setattr_("Path", ["", "nosuch.xml", "../", "sub0.xml/", "/nosuch/sub.xml"]))
    elif c == "unknown component type":
        ok = _edit(r, sub, decl("Component"), setattr_("Type", ["", "Nosuch", "T", "t0"]))
    elif c == "unknown base type":
        ok = _edit(r, sub, decl("ComponentType"), setattr_("Extends", ["Nosuch", "T", "t0"]))
    elif c == "recursive type":
        def f(x, e):
            e.append(ET.Element("Component", Name="again", Type=e.get("Name")))
        def used(x):
            u = {e.get("Type") for e in x.find("InstanceDefinition").iter("Component")}
            return [e for e in x.iter("ComponentType") if e.get("Name") in u]
        ok = _edit(r, sub, used, f)
    elif c == "self extension":
        ok = _edit(r, sub, decl("ComponentType"), lambda x, e: e.set("Extends", e.get("Name")))
    elif c == "no library":
        ok = _edit(r, sub, decl("ComponentLibrary"), drop)
    elif c == "no instances":
        ok = _edit(r, sub, decl("InstanceDefinition"), drop)
    elif c == "unknown element":
        ok = _edit(r, sub, lambda x: [e for e in x.iter() if e.tag in ("ParameterBlock", "InstanceDefinition", "ComponentType", "ComponentLibrary", "BitParameterBlock")],
                   lambda x, e: e.append(ET.Element(r.choice(["Nosuch", "integerparameter", "SystemClass"]), Name="n")))
    elif c == "misplaced element":
        ok = _edit(r, sub, decl("ParameterBlock", "ComponentType", "InstanceDefinition", "BitParameterBlock"),
                   lambda x, e: e.append(ET.Element("ComponentType", Name="n")))
    elif c == "integer size":
        ok = _edit(r, sub, decl("IntegerParameter", "FixedPointParameter", "EnumParameter"), setattr_("Size", ["", "0", "7", "24", "64", "x", "-8"]))
    elif c == "float size":
        ok = _edit(r, sub, decl("FloatingPointParameter"), setattr_("Size", ["8", "64", "16", "x"]))
    elif c == "q format":
        ok = _edit(r, sub, decl("FixedPointParameter"), lambda x, e: (e.set("Integral", "30"), e.set("Fractional", "30")))
    elif c == "block size":
        ok = _edit(r, sub, decl("BitParameterBlock"), setattr_("Size", ["0", "4", "12", "24", "x", "-8"]))
    elif c == "bit position":
        ok = _edit(r, sub, decl("BitParameter"), setattr_("Pos", ["64", "65", "200", "x", "-1"]))
    elif c == "bit size":
        ok = _edit(r, sub, decl("BitParameter"), setattr_("Size", ["65", "0", "x", "-1"]))
    elif c == "range":
        ok = _edit(r, sub, decl("IntegerParameter", "FloatingPointParameter"), lambda x, e: (e.set("Min", "5"), e.set("Max", "3")))
    elif c == "bound text":
        ok = _edit(r, sub, decl("IntegerParameter", "FloatingPointParameter"), setattr_(r.choice(["Min", "Max"]), ["x", "", "1x", "0x", "1e999"]))
    elif c == "array length":
        ok = _edit(r, sub, decl(*LEAVES[:5], "ParameterBlock", "Component"), setattr_("ArrayLength", ["x", "", "-1", "1.5"]))
    elif c == "string length":
        ok = _edit(r, sub, decl("StringParameter"), setattr_("MaxLength", ["x", "", "-1"]))
    elif c == "literal":
        ok = _edit(r, sub, decl("ValuePair"), setattr_("Numerical", ["x", "", "99999999999", "0x"]))
    elif c == "value pair element":
        ok = _edit(r, sub, decl("EnumParameter"), lambda x, e: e.append(ET.Element("Pair", Literal="a", Numerical="1")))
    elif c == "adaptation":
        ok = _edit(r, sub, lambda x: [e for e in x.iter("IntegerParameter") if not len(e)], lambda x, e: e.append(ET.Element(r.choice(["Adaptation", "LinearAdaptatio"]))))
    elif c == "slope denominator":
        ok = _edit(r, sub, decl("LinearAdaptation"), setattr_("SlopeDenominator", ["0", "x", ""]))
    elif c == "log base":
        ok = _edit(r, sub, decl("LogarithmicAdaptation"), setattr_("LogarithmBase", ["x", "0", "-1", "1"]))
    else:
        raise AssertionError(c)
    return c if ok else None

STRUCT = ["top file", "included file", "top root", "top name", "included root", "include path", "unknown component type", "unknown base type", "recursive type",
          "self extension", "no library", "no instances", "unknown element", "misplaced element", "integer size", "float size", "q format", "block size",
          "bit position", "bit size", "range", "bound text", "array length", "string length", "literal", "value pair element", "adaptation",
          "slope denominator", "log base"]

CONF = ["file", "root", "no plugins", "no structure", "structure path", "unknown element", "tuning", "port"]

def config_fault(r, p):
    c = r.choice(CONF)
    if c == "file":
        return "file " + broken_file(r, p)
    def drop(x, e):
        _parents(x)[e].remove(e)
    if c == "root":
        ok = _edit(r, p, lambda x: [x], lambda x, e: setattr(e, "tag", r.choice(["Configuration", "ParameterFrameworkConfigurationX", "XParameterFrameworkConfiguration"])))
    elif c == "no plugins":
        ok = _edit(r, p, lambda x: x.findall("SubsystemPlugins"), drop)
    elif c == "no structure":
        ok = _edit(r, p, lambda x: x.findall("StructureDescriptionFileLocation"), drop)
    elif c == "structure path":
        ok = _edit(r, p, lambda x: x.findall("StructureDescriptionFileLocation"), lambda x, e: e.set("Path", r.choice(["", "nosuch.xml", ".", "structure.xml/x", "config.xml"])))
    elif c == "unknown element":
        ok = _edit(r, p, lambda x: [x] + x.findall("SubsystemPlugins") + x.findall("SettingsConfiguration"), lambda x, e: e.append(ET.Element("Nosuch")))
    elif c == "tuning":
        ok = _edit(r, p, lambda x: [x], lambda x, e: e.set("TuningAllowed", r.choice(["", "maybe", "2"])))
    else:
        ok = _edit(r, p, lambda x: [x], lambda x, e: e.set("ServerPort", r.choice(["", "x", "70000", "-1"])))
    return c if ok else None

def plugin_fault(r, p):
    """The monitoring plugin is not available."""
    c = r.choice(["name", "folder", "no entry", "not a library", "no list", "unnamed"])
    x = ET.fromstring(_read(p).encode())
    loc = x.find("SubsystemPlugins/Location")
    pl = loc.find("Plugin")
    d = os.path.dirname(p)
    if c == "name":
        pl.set("Name", r.choice(["libnosuch.so", "nosuch", "libmonsub"]))
    elif c == "folder":
        loc.set("Folder", r.choice([d, "/nosuch", "nosuch/dir"]))
    elif c == "no entry":
        loc.set("Folder", "")
        pl.set("Name", "libm.so.6")
    elif c == "not a library":
        _write(os.path.join(d, "libmonsub.so"), "not a library")
        loc.set("Folder", d)
    elif c == "no list":        # nothing to load, the type stays unknown
        x.find("SubsystemPlugins").remove(loc)
    else:
        loc.remove(pl)
    _write(p, tos(x))
    return c

def companion_fault(r, p):
    """Plugins which can't be loaded around the one which can."""
    x = ET.fromstring(_read(p).encode())
    top = x.find("SubsystemPlugins")
    good = top.find("Location")
    d = os.path.dirname(p)
    for i in range(r.choice([1, 1, 1, 2, 3])):
        c = r.choice(["missing", "no entry", "not a library"])
        name = {"missing": "libnosuch%d.so" % i, "no entry": "libm.so.6", "not a library": "libbad%d.so" % i}[c]
        if c == "not a library":
            _write(os.path.join(d, name), "not a library")
        if c == "missing" and r.random() < .6:
            loc = good
        else:
            loc = ET.Element("Location", Folder={"missing": r.choice([d, "/nosuch"]), "no entry": "", "not a library": d}[c])
            top.insert(r.randint(0, len(top)), loc)
        loc.insert(r.randint(0, len(loc)), ET.Element("Plugin", Name=name))
    _write(p, tos(x))
    return "around"

# ---------------------------------------------------------------- P25
from .world import World, Mismatch, write_files
from .structgen import Gen
from .special import fresh_dir
from . import engine as E

SURE = ["order", "path", "nopath", "spath", "rule", "compound", "value", "extra", "unknownconf", "rename", "tag", "root", "cls", "seq", "truncated", "garbage"]
SCHEMA = ["twice", "noname", "alien"]

class Refused(Exception):
    pass

def faults(ctx, rng, case, nops=14):
    h = ctx.host()
    d = fresh_dir(ctx, "f")
    kind = rng.choices(["settings", "plugin", "type", "structure", "config", "none", "mixed", "companion", "schema"], [34, 14, 10, 26, 10, 4, 6, 8, 5])[0]
    pol = {"missing": rng.random() < .5, "settings": rng.random() < .5}
    validate = kind == "schema" or rng.random() < (.35 if kind == "settings" else 0)
    schemas = None
    what, must_fail = [], [False]
    virtual = not pol["missing"] and kind in ("plugin", "mixed")
    g = Gen(rng, virtual=1.0 if virtual else .15)
    st = g.structure(rng.choice([1, 2, 2, 3]), 40)
    # every second case has the subsystem type of the plugin in the files, the model sees virtual subsystems
    unknown = []
    if virtual:
        from .model import Structure
        for s in st.subs:
            if rng.random() < .7:
                for t in s.types:
                    for c in t.children:
                        g.map_decl(c, s)
                for c in s.children:
                    g.map_decl(c, s)
        st = Structure(st.name, st.subs)
        unknown = [s.name for s in st.subs]
    elif kind == "type":
        k = rng.choice(st.subs)
        if not pol["missing"]:
            from .model import Structure
            from .structgen import mark_objects
            k.stype = "Virtual"
            st = Structure(st.name, st.subs)
            mark_objects(st)
        unknown = [k.name]
    def writer(w, st, doc):
        cfg = write_files(d, st, doc, w.plugin_dir)
        if kind in ("plugin", "mixed"):
            what.append("plugin " + plugin_fault(rng, cfg))
            only = what[-1].endswith(("no list", "unnamed"))
            for i, s in enumerate(st.subs):
                p = os.path.join(d, "sub%d.xml" % i)
                if virtual:
                    _write(p, _read(p).replace('Type="Virtual"', rng.choice(['Type="MON"', 'Type="MON"', 'Type="Virtual"', 'Type="Nosuch"']), 1))
            # without any plugin listed, the fault is the missing builder
            must_fail[0] |= pol["missing"] and (not only or any(s.stype == "MON" for s in st.subs))
        if kind == "companion":
            what.append("plugin " + companion_fault(rng, cfg))
            must_fail[0] |= pol["missing"]
        if kind == "type":
            for i, s in enumerate(st.subs):
                if s.name in unknown:
                    p = os.path.join(d, "sub%d.xml" % i)
                    t = _read(p)
                    _write(p, re.sub(r' Type="(MON|Virtual)"', lambda m: ' Type=%s' % rng.choice(['"Nosuch"', '"mon"', '""', '"MO"', '"virtual"']), t, count=1))
                    what.append("unknown subsystem type")
            must_fail[0] |= pol["missing"]
        if kind in ("settings", "mixed") and doc is not None:
            k, t = spoil_domains(rng, doc, rng.choice(SURE + (SCHEMA if validate else [])))
            c = rng.random()
            p = os.path.join(d, "domains.xml")
            if c < .12 or t is None:
                k = "file " + broken_file(rng, p)
            elif c < .18 and not validate:
                k = "no location"
                x = _read(cfg)
                _write(cfg, re.sub(r"<ConfigurableDomainsFileLocation [^>]*>", "", x))
            elif c < .24:
                k = "path"
                _write(cfg, _read(cfg).replace('Path="domains.xml"', rng.choice(['Path="."', 'Path="nosuch.xml"', 'Path="domains.xml/x"', 'Path="/nosuch/d.xml"', 'Path="structure.xml"'])))
            else:
                _write(p, t)
            what.append("settings " + k)
            must_fail[0] |= pol["settings"]
            w.domains = []
        if kind == "structure":
            for _ in range(50):
                k = struct_fault(rng, d, st)
                if k:
                    break
            what.append("structure " + str(k))
            must_fail[0] = k is not None
        if kind == "schema":
            # the documents are sound, what they are validated against is not available
            k = rng.choice(["folder", "ParameterFrameworkConfiguration", "SystemClass", "ConfigurableDomains"])
            if k != "folder":
                shutil.copytree("/repo/schemas", schemas)
                broken_file(rng, os.path.join(schemas, k + ".xsd"))
            what.append("schemas " + k)
            must_fail[0] |= k != "ConfigurableDomains" or pol["settings"] and doc is not None
            if k == "ConfigurableDomains":
                w.domains = []
        if kind == "config":
            k = config_fault(rng, cfg)
            what.append("configuration " + str(k))
            must_fail[0] = k is not None
        ctx.log.append("faults: %s, policies %s, validation %s" % (what, pol, validate))
        return cfg
    prof = dict(weights=E.weights(1, **(dict(domtrip=0, domone=0, badimport=0, partimport=0) if validate else {})), structure=lambda r: st, initial=1.0 if kind in ("settings", "mixed") else .5, writer=writer, flags=pol, validate=validate, cinit=False)
    if kind == "schema":
        schemas = os.path.join(d, "schemas", "")
        prof["flags"] = dict(pol, schema=schemas)
    w = World(h, rng, d, ctx.out, prof, 1, ctx.note)
    w.log = ctx.log
    def on_start(ok, f):
        """called with the outcome of the start; stops the history when it had to fail"""
        desc = ", ".join(what) or "no fault"
        w.op = ctx.op = "start"
        if must_fail[0]:
            for x in what:
                ctx.note("refused: " + x)
            if ok:
                raise Mismatch("start", "accepted", "started in spite of %s (policies %s, validation %s; %s)" % (desc, pol, validate, LAST[0]))
            if not f[0].strip():
                raise Mismatch("start", "error", "refused (%s) without an error text" % desc)
            for x in what:
                k = x.split()
                n = {"file": {"configuration": "config.xml", "settings": "domains.xml"}.get(k[0]), "top": "structure.xml" if k[2:3] == ["file"] or k[2:4] == ["file"] else None,
                     "included": ("sub" if "file" in k else None), "folder": "libmonsub" if k[0] == "plugin" else None, "name": None}.get(k[1] if len(k) > 1 else "")
                if k[0] == "structure" and k[1:3] == ["top", "file"]:
                    n = "structure.xml"
                if len(what) == 1 and n and n not in f[0]:
                    raise Mismatch("start", "error", "the error %r does not name %s (%s)" % (f[0], n, x))
            raise Refused(f)
        if not ok:
            raise Mismatch("start", "refused", "start failed (%s, policies %s, validation %s): %s" % (desc, pol, validate, f[0]))
        if what:
            ctx.note("started without the faulty part")
            for x in what:
                ctx.note("started with " + x)
        else:
            ctx.note("starts without fault")
    w.on_start = on_start
    try:
        try:
            w.run(rng.randint(2, nops))
            return
        except Refused as e:
            f = e.args[0]
        ctx.note("starts refused")
        def bad(aspect, detail):
            raise Mismatch(ctx.op, aspect, "%s: %s" % (", ".join(what), detail))
        if f[1] != "0":
            bad("started", "the instance says it is started after a failed start")
        ev = h.raw("hw", "events")[1:]
        if any(ev[k] in (b"S", b"s") for k in range(1, len(ev), 3)):
            bad("hw", "a failed start wrote to the hardware")
        ctx.op = "retry"
        ok, g = h.call("start", 1)
        if ok or not g[0].strip() or g[1] != "0":
            bad("status", "a second start of the broken instance answers %s %r" % (ok, g))
    finally:
        ctx.op = w.op if not ctx.op == "retry" else ctx.op
        if ctx._host is not None and h.p.poll() is None:
            h.call("del", 1)
    ctx.op = "destroy"
    ok, f = h.call("hw", "objs", 1)
    if f:
        bad("objects", "subsystem objects outlive their instance: %s" % f[4:6])
    ev = h.raw("hw", "events")[1:]
    if any(ev[k] in (b"S", b"s") for k in range(1, len(ev), 3)):
        bad("hw", "a refused start reached the hardware later")
    if rng.random() < .4 and pol["missing"] and pol["settings"] and not validate:
        # the same files through the C interface
        ctx.op = "C"
        cfg = os.path.join(d, "config.xml")
        h.call("c", 1, "create")
        try:
            spec = []
            for c in w.crits:
                spec += [c.name, "1" if c.inclusive else "0", str(len(c.values))] + [l for n, l in c.values]
            ok, f = h.call("c", 1, "start", cfg, "0", len(w.crits), *spec)
            if ok or not f[0].strip():
                bad("accepted", "pfwStart says %s %r" % (ok, f))
            for k in range(2):
                n = rng.choice(st.nodes)
                ok, f = h.call("c", 1, "bind", n.path)
                if ok or not f[0].strip():
                    bad("use", "after a failed pfwStart, binding %s answers %s %r" % (n.path, ok, f))
                ok, f = h.call("c", 1, "apply")
                if ok or not f[0].strip():
                    bad("use", "after a failed pfwStart, applying answers %s %r" % (ok, f))
            ev = h.raw("hw", "events")[1:]
            if any(ev[k] in (b"S", b"s") for k in range(1, len(ev), 3)):
                bad("hw", "a failed pfwStart wrote to the hardware")
            ctx.note("failed C starts")
        finally:
            if h.p.poll() is None:
                h.call("c", 1, "destroy")
