"""Concurrent clients of one instance (P20), threads driving instances of their own (P21)."""
import os, re, struct, random, shutil, collections
import xml.etree.ElementTree as ET
from .host import Host, Died, Hang, HarnessError
from .world import Mismatch, World
from .special import fresh_dir
from . import mini

# ------------------------------------------------------------------------------ the shared instance
# offsets: a 0..16, t 16..32, b 32..38 (x u16, y i32), d 38..46 (p, q u32), e 46..50 (u, v u16)
INSTANCE = """<IntegerParameter Name="a" Size="32" ArrayLength="4" Mapping="Obj:a"/>
<StringParameter Name="t" MaxLength="15" Mapping="Obj:t"/>
<ParameterBlock Name="b" Mapping="Obj:b"><IntegerParameter Name="x" Size="16" Signed="false"/><IntegerParameter Name="y" Size="32" Signed="true"/></ParameterBlock>
<ParameterBlock Name="d" Mapping="Obj:d"><IntegerParameter Name="p" Size="32" Signed="false"/><IntegerParameter Name="q" Size="32" Signed="false"/></ParameterBlock>
<ParameterBlock Name="e"><IntegerParameter Name="u" Size="16" Signed="false" Mapping="Obj:u"/><IntegerParameter Name="v" Size="16" Signed="false" Mapping="Obj:v"/></ParameterBlock>"""
LEAF = {"/test/s/a": (0, 16, "4I"), "/test/s/t": (16, 16, "s"), "/test/s/b/x": (32, 2, "H"), "/test/s/b/y": (34, 4, "i"),
        "/test/s/d/p": (38, 4, "I"), "/test/s/d/q": (42, 4, "I"), "/test/s/e/u": (46, 2, "H"), "/test/s/e/v": (48, 2, "H")}
OBJ = {"/test/s/a": (0, 16), "/test/s/t": (16, 16), "/test/s/b": (32, 6), "/test/s/d": (38, 8), "/test/s/e/u": (46, 2), "/test/s/e/v": (48, 2)}
SIZE = 50
ELEM = {"/test": (0, 50), "/test/s": (0, 50), "/test/s/b": (32, 6), "/test/s/d": (38, 8), "/test/s/e": (46, 4), **{k: v[:2] for k, v in LEAF.items()}}
RULES = {1: "Crit Is one", 2: "Crit Is two", 3: "Crit IsNot one", 0: ""}
SEQ = (("/test/s/e/u", "/test/s/e/v"), ("/test/s/e/v", "/test/s/e/u"))

def objs_of(path):
    o, n = ELEM[path]
    return [k for k, (p, s) in OBJ.items() if p < o + n and o < p + s]

def enc(path, vals):
    o, n, f = LEAF[path]
    if f == "s":
        return vals.encode().ljust(16, b"\0")
    return struct.pack("<" + f, *vals)

def dec(path, mem):
    o, n, f = LEAF[path]
    b = mem[o:o + n]
    if f == "s":
        return b.split(b"\0")[0].decode()
    return " ".join(str(v) for v in struct.unpack("<" + f, b))

def tidy(path, b):
    """Contents with what follows the terminator of the string blanked: it is not part of the value."""
    o, n = ELEM[path]
    if o <= 16 and o + n >= 32:
        a = 16 - o
        b = b[:a] + b[a:a + 16].split(b"\0")[0].ljust(16, b"\0") + b[a + 16:]
    return b

def put(mem, path, b):
    o, n = ELEM[path]
    return mem[:o] + b + mem[o + n:]

def settings(path, mem):
    """XML settings of the block b"""
    o, n = ELEM[path]
    return ('<ParameterBlock Name="b"><IntegerParameter Name="x">%d</IntegerParameter><IntegerParameter Name="y">%d</IntegerParameter></ParameterBlock>'
            % struct.unpack("<Hi", mem[o:o + n]))

def conf_xml(name, rule, elems, mem):
    x = ['<Configuration Name="%s">' % name]
    for e in elems:
        x.append('<ConfigurableElement Path="%s">' % e)
        if e == "/test/s/d":
            x.append('<ParameterBlock Name="d"><IntegerParameter Name="p">%d</IntegerParameter><IntegerParameter Name="q">%d</IntegerParameter></ParameterBlock>' % struct.unpack("<II", mem[38:46]))
        else:
            o, n = ELEM[e]
            x.append('<IntegerParameter Name="%s">%d</IntegerParameter>' % (e[-1], struct.unpack("<H", mem[o:o + n])[0]))
        x.append("</ConfigurableElement>")
    return "".join(x) + "</Configuration>"

def rule_xml(r):
    if r == 0:
        return ""
    return '<CompoundRule Type="All"><SelectionCriterionRule SelectionCriterion="Crit" MatchesWhen="%s" Value="%s"/></CompoundRule>' % (
        "IsNot" if r == 3 else "Is", {1: "one", 2: "two", 3: "one"}[r])

def domains(st):
    d, e = st.confs[:2], st.confs[2:]
    x = ['<?xml version="1.0" encoding="UTF-8"?><ConfigurableDomains SystemClassName="test">']
    for name, seq, cs, elems in (("D", "false", [("C1", 0), ("C2", 1)], ["/test/s/d"]), ("E", "true", [("E1", 2), ("E2", 3)], ["/test/s/e/u", "/test/s/e/v"])):
        x.append('<ConfigurableDomain Name="%s" SequenceAware="%s"><Configurations>' % (name, seq))
        for c, k in cs:
            x.append('<Configuration Name="%s">%s</Configuration>' % (c, rule_xml(st.rules[k])))
        x.append("</Configurations><ConfigurableElements>" + "".join('<ConfigurableElement Path="%s"/>' % p for p in elems) + "</ConfigurableElements><Settings>")
        for c, k in cs:
            x.append(conf_xml(c, st.rules[k], elems if name == "D" else SEQ[st.order[k - 2]], st.confs[k]))
        x.append("</Settings></ConfigurableDomain>")
    x.append('<ConfigurableDomain Name="N"><Configurations/><ConfigurableElements/></ConfigurableDomain>')
    return "".join(x) + "</ConfigurableDomains>"

State = collections.namedtuple("State", "tuning autosync mem crit confs rules order last extra own nconfs seq")
CONF = {("D", "C1"): 0, ("D", "C2"): 1, ("E", "E1"): 2, ("E", "E2"): 3}

def holds(rule, crit):
    return rule == 1 and crit == 1 or rule == 2 and crit == 2 or rule == 3 and crit != 1

class Ev:
    """Hardware writes an operation makes: groups in order, a group in any order."""
    def __init__(self):
        self.groups = []
    def sync(self, paths, mem):
        ps = sorted(set(paths))
        if ps:
            self.groups.append(sorted((p, mem[OBJ[p][0]:OBJ[p][0] + OBJ[p][1]]) for p in ps))

def restore(s, k, ev, sync):
    if k < 2:
        mem = put(s.mem, "/test/s/d", s.confs[k][38:46])
        return s._replace(mem=mem, last=(k, s.last[1])), ["/test/s/d"] if sync else []
    mem = s.mem
    for p in SEQ[s.order[k - 2]]:
        o, n = OBJ[p]
        mem = put(mem, p, s.confs[k][o:o + n])
        if sync:
            ev.sync([p], mem)
    return s._replace(mem=mem, last=(s.last[0], k)), []

def apply(s, force, ev):
    if force:
        s = s._replace(last=(None, None))
    for base in (0, 2):
        for k in (base, base + 1):
            if holds(s.rules[k], s.crit):
                if s.last[base // 2] != k:
                    s, objs = restore(s, k, ev, True)
                    ev.sync(objs, s.mem)
                break
    return s

def step(s, op):
    """-> (outcome ok, text or None when not compared, new state, hardware write groups)"""
    ev = Ev()
    k = op[0]
    if k == "set":
        if not s.tuning:
            return False, None, s, ev.groups
        mem = put(s.mem, op[1], enc(op[1], op[2]))
        if s.autosync:
            ev.sync(objs_of(op[1]), mem)
        return True, None, s._replace(mem=mem), ev.groups
    if k == "get":
        return True, dec(op[1], s.mem), s, ev.groups
    if k == "hset":         # typed writes belong to clients outside tuning mode
        if any(op[1].startswith(p) for p in s.own):
            return False, None, s, ev.groups
        if s.tuning:
            return True, None, s, ev.groups
        mem = put(s.mem, op[1], enc(op[1], op[2]))
        ev.sync(objs_of(op[1]), mem)
        return True, None, s._replace(mem=mem), ev.groups
    if k == "hget":
        return True, dec(op[1], s.mem), s, ev.groups
    if k == "bytes":
        o, n = ELEM[op[1]]
        return True, s.mem[o:o + n], s, ev.groups
    if k == "setbytes":
        mem = put(s.mem, op[1], op[2])
        if s.autosync:
            ev.sync(objs_of(op[1]), mem)
        return True, None, s._replace(mem=mem), ev.groups
    if k == "setxml":
        mem = put(s.mem, "/test/s/b", op[1])
        if s.autosync:
            ev.sync(["/test/s/b"], mem)
        return True, None, s._replace(mem=mem), ev.groups
    if k == "getxml":
        return True, s.mem[32:38], s, ev.groups
    if k == "tuning":
        if s.tuning == op[1]:
            return False, None, s, ev.groups
        if not op[1]:
            s = apply(s, True, ev)
        return True, None, s._replace(tuning=op[1]), ev.groups
    if k == "tuning?":
        return True, "1" if s.tuning else "0", s, ev.groups
    if k == "autosync":
        if op[1] and not s.autosync:
            ev.sync(list(OBJ), s.mem)
        return True, None, s._replace(autosync=op[1]), ev.groups
    if k == "autosync?":
        return True, "1" if s.autosync else "0", s, ev.groups
    if k == "sync":
        if s.autosync:
            return False, None, s, ev.groups
        ev.sync(list(OBJ), s.mem)
        return True, None, s, ev.groups
    if k == "setcrit":
        return True, None, s._replace(crit=op[1]), ev.groups
    if k == "apply":
        return True, None, s if s.tuning else apply(s, False, ev), ev.groups
    if k == "save":
        if not s.tuning:
            return False, None, s, ev.groups
        i = CONF[op[1:3]]
        o, n = (38, 8) if i < 2 else (46, 4)
        c = s.confs[i][:o] + s.mem[o:o + n] + s.confs[i][o + n:]
        return True, None, s._replace(confs=s.confs[:i] + (c,) + s.confs[i + 1:]), ev.groups
    if k == "restore":
        if not s.tuning:
            return False, None, s, ev.groups
        i = CONF[op[1:3]]
        s, objs = restore(s, i, ev, s.autosync)
        ev.sync(objs, s.mem)
        return True, None, s, ev.groups
    if k == "getc":
        i = CONF[op[1:3]]       # what was applied last is read where it was applied
        return True, dec(op[3], s.mem if s.last[i // 2] == i else s.confs[i]), s, ev.groups
    if k == "setc":
        i = CONF[op[1:3]]
        c = put(s.confs[i], op[3], enc(op[3], op[4]))
        s = s._replace(confs=s.confs[:i] + (c,) + s.confs[i + 1:])
        if s.last[i // 2] == i:
            s = s._replace(mem=put(s.mem, op[3], enc(op[3], op[4])))
            if s.autosync:
                ev.sync(objs_of(op[3]), s.mem)
        return True, None, s, ev.groups
    if k == "fact":
        return True, op[2], s, ev.groups
    if k == "create":
        if not s.tuning or op[1] in s.extra:
            return False, None, s, ev.groups
        return True, None, s._replace(extra=s.extra | {op[1]}), ev.groups
    if k == "delete":
        if not s.tuning or op[1] not in s.extra:
            return False, None, s, ev.groups
        return True, None, s._replace(extra=s.extra - {op[1]}, seq=s.seq - {op[1]}), ev.groups
    if k == "seq":
        if not s.tuning or op[1] != "N" and op[1] not in s.extra:
            return False, None, s, ev.groups
        return True, None, s._replace(seq=s.seq | {op[1]} if op[2] else s.seq - {op[1]}), ev.groups
    if k == "seq?":
        if op[1] != "N" and op[1] not in s.extra:
            return False, None, s, ev.groups
        return True, "true" if op[1] in s.seq else "false", s, ev.groups
    if k == "nconf":
        if not s.tuning or (op[2] in s.nconfs) == op[1]:
            return False, None, s, ev.groups
        return True, None, s._replace(nconfs=s.nconfs ^ {op[2]}), ev.groups
    if k == "own":
        if not s.tuning or (op[2] in s.own) == op[1] or op[1] and any(op[2].startswith(p) for p in s.own):
            return False, None, s, ev.groups
        if op[1]:       # takes over what the domain holds below
            return True, None, s._replace(own=frozenset(p for p in s.own if not p.startswith(op[2])) | {op[2]}), ev.groups
        return True, None, s._replace(own=s.own - {op[2]}), ev.groups
    if k == "split":
        if not s.tuning or "/test/s/b" not in s.own:
            return False, None, s, ev.groups
        return True, None, s._replace(own=frozenset(["/test/s/b/x", "/test/s/b/y"])), ev.groups
    if k == "status":
        return True, (s.tuning, s.autosync) + s.last, s, ev.groups
    if k == "list":
        if op[1:] == ("listDomains",):
            return True, frozenset(["D", "E [sequence aware]"] + [n + " [sequence aware]" if n in s.seq else n for n in s.extra | {"N"}]), s, ev.groups
        if op[1:] == ("listConfigurations", "N"):
            return True, s.nconfs, s, ev.groups
        if op[1:] == ("listDomainElements", "N"):
            return True, s.own, s, ev.groups
        if op[1] == "getElementSequence":
            return True, SEQ[s.order[CONF[op[2:]] - 2]], s, ev.groups
        if op[1] == "listBelongingDomains":
            return True, frozenset(["N"] if any(op[2].startswith(p) for p in s.own) else []), s, ev.groups
        if op[1] == "listAssociatedDomains":
            return True, frozenset(["N"] if op[2] in s.own else []), s, ev.groups
        if op[1] == "listRogueElements":
            b = frozenset(["/test/s/b"]) if not s.own else frozenset(["/test/s/b/x", "/test/s/b/y"]) - s.own if "/test/s/b" not in s.own else frozenset()
            return True, frozenset(["/test/s/a", "/test/s/t"]) | b, s, ev.groups
        if op[1] == "listAssociatedElements":
            return True, frozenset(["/test/s/d [D]", "/test/s/e/u [E]", "/test/s/e/v [E]"] + [p + " [N]" for p in s.own]), s, ev.groups
        return True, None, s, ev.groups
    if k == "rogue":
        return True, "0" if any(op[1].startswith(p) or p.startswith(op[1]) for p in s.own) else "1", s, ev.groups
    if k == "rename":
        if op[1] not in s.extra or op[2] in s.extra - {op[1]}:
            return False, None, s, ev.groups
        return True, None, s._replace(extra=s.extra - {op[1]} | {op[2]}, seq=s.seq - {op[1]} | {op[2]} if op[1] in s.seq else s.seq), ev.groups
    if k == "rule":
        i = CONF[op[1:3]]
        return True, None, s._replace(rules=s.rules[:i] + (op[3],) + s.rules[i + 1:]), ev.groups
    if k == "rule?":
        r = s.rules[CONF[op[1:3]]]
        return True, r, s, ev.groups
    if k == "order":
        if not s.tuning:
            return False, None, s, ev.groups
        i = CONF[op[1:3]] - 2
        return True, None, s._replace(order=s.order[:i] + (op[3],) + s.order[i + 1:]), ev.groups
    if k == "export":
        return True, (s.confs[CONF[op[1:3]]][38:50], s.rules[CONF[op[1:3]]], 0 if CONF[op[1:3]] < 2 else s.order[CONF[op[1:3]] - 2]), s, ev.groups
    if k == "exportall":
        return True, (s.extra, s.seq, s.nconfs, s.own) + tuple((c[38:46] if i < 2 else c[46:50]) for i, c in enumerate(s.confs)) + s.rules + s.order, s, ev.groups
    raise AssertionError(k)

# ------------------------------------------------------------------------------ requests and observations
def fields(op, route, iid):
    """The request executing an operation."""
    k = op[0]
    i = str(iid)
    def txt(path, v):
        return v if isinstance(v, str) else " ".join(map(str, v))
    def either(api, cmd):
        return ["api", i] + api if route == 0 else ["cmd", i] + cmd
    if k == "set":
        return either(["set", op[1], txt(op[1], op[2])], ["setParameter", op[1], txt(op[1], op[2])])
    if k == "get":
        return either(["get", op[1]], ["getParameter", op[1]])
    if k == "hset":
        if op[1] == "/test/s/a":
            return ["h", i, op[1], "setuints"] + [str(v) for v in op[2]]
        if op[1] == "/test/s/t":
            return ["h", i, op[1], "setstring", op[2]]
        return ["h", i, op[1], "setint", str(op[2][0])]
    if k == "hget":
        if op[1] == "/test/s/a":
            return ["h", i, op[1], "getuints"]
        if op[1] == "/test/s/t":
            return ["h", i, op[1], "getstring"]
        return ["h", i, op[1], "getint"]
    if k == "bytes":
        return ["h", i, op[1], "getbytes"]
    if k == "setbytes":
        return ["h", i, op[1], "setbytes", op[2]]
    if k == "setxml":
        return ["h", i, "/test/s/b", "setxml", settings("/test/s/b", bytes(32) + op[1])]
    if k == "getxml":
        return ["h", i, "/test/s/b", "getxml"]
    if k == "tuning":
        return either(["setTuningMode", "1" if op[1] else "0"], ["setTuningMode", "on" if op[1] else "off"])
    if k == "tuning?":
        return ["api", i, "isTuningModeOn"]
    if k == "autosync":
        return either(["setAutoSync", "1" if op[1] else "0"], ["setAutoSync", "on" if op[1] else "off"])
    if k == "autosync?":
        return ["api", i, "isAutoSyncOn"]
    if k == "sync":
        return either(["sync"], ["sync"])
    if k == "setcrit":
        return ["setcrit", i, "Crit", str(op[1])]
    if k == "apply":
        return ["apply", i]
    if k == "save":
        return either(["saveConf"] + list(op[1:]), ["saveConfiguration"] + list(op[1:]))
    if k == "restore":
        return either(["restoreConf"] + list(op[1:]), ["restoreConfiguration"] + list(op[1:]))
    if k == "getc":
        return either(["getc"] + list(op[1:]), ["getConfigurationParameter"] + list(op[1:]))
    if k == "setc":
        return either(["setc"] + list(op[1:4]) + [txt(op[3], op[4])], ["setConfigurationParameter"] + list(op[1:4]) + [txt(op[3], op[4])])
    if k == "create":
        return either(["createDomain", op[1]], ["createDomain", op[1]])
    if k == "delete":
        return either(["deleteDomain", op[1]], ["deleteDomain", op[1]])
    if k == "nconf":
        return either(["createConf", "N", op[2]], ["createConfiguration", "N", op[2]]) if op[1] else either(["deleteConf", "N", op[2]], ["deleteConfiguration", "N", op[2]])
    if k == "own":
        return either(["addElem", "N", op[2]], ["addElement", "N", op[2]]) if op[1] else either(["removeElem", "N", op[2]], ["removeElement", "N", op[2]])
    if k == "seq":
        return either(["setSeq", op[1], "1" if op[2] else "0"], ["setSequenceAwareness", op[1], "true" if op[2] else "false"])
    if k == "seq?":
        return either(["getSeq", op[1]], ["getSequenceAwareness", op[1]])
    if k == "split":
        return either(["split", "N", "/test/s/b"], ["splitDomain", "N", "/test/s/b"])
    if k == "rogue":
        return ["h", i, op[1], "rogue"]
    if k == "status":
        return ["cmd", i, "status"]
    if k == "fact":
        return [op[1][0], i] + list(op[1][1:])
    if k == "list":
        return ["cmd", i] + list(op[1:])
    if k == "rename":
        return either(["renameDomain", op[1], op[2]], ["renameDomain", op[1], op[2]])
    if k == "rule":
        if op[3] == 0:
            return either(["clearRule", op[1], op[2]], ["clearRule", op[1], op[2]])
        return either(["setRule", op[1], op[2], "All{%s}" % RULES[op[3]]], ["setRule", op[1], op[2], "All{%s}" % RULES[op[3]]])
    if k == "rule?":
        return either(["getRule", op[1], op[2]], ["getRule", op[1], op[2]])
    if k == "order":
        return either(["setElemSeq", op[1], op[2]] + list(SEQ[op[3]]), ["setElementSequence", op[1], op[2]] + list(SEQ[op[3]]))
    if k == "export":
        return ["api", i, "exportDomain", "", op[1], "1", "0"]
    if k == "exportall":
        return ["api", i, "exportDomains", "", "1", "0"]
    raise AssertionError(k)

def observed(op, f):
    """-> (ok, comparable value)"""
    ok = f[0] == b"1"
    k = op[0]
    t = f[1].decode("utf-8", "replace") if len(f) > 1 else ""
    if k in ("get", "getc"):
        return ok, re.sub(r"\s+", " ", t).strip() if ok else None
    if k == "hget":
        return ok, " ".join(x.decode() for x in f[1:]) if ok else None
    if k in ("tuning?", "autosync?", "rogue"):
        return ok, t
    if k == "fact":     # what belongs to the structure never changes
        return True, tuple(x for i, x in enumerate(f) if i != 6 or op[1][-1] != "info")
    if k == "seq?":
        return ok, {"1": "true", "0": "false"}.get(t.strip(), t.strip()) if ok else None
    if k == "status":
        last = re.search(r"\nD: (\S+) \[.*\nE: (\S+) \[", t)
        return ok, ("Tuning Mode: on\n" in t, "Auto Sync: on\n" in t) + tuple(CONF.get((d, last.group(j))) for j, d in ((1, "D"), (2, "E"))) if last else t
    if k == "list":
        ls = [x for x in t.split("\n") if x]
        return ok, tuple(ls) if op[1] == "getElementSequence" else frozenset(ls)
    if k == "bytes":
        return ok, tidy(op[1], f[1])
    if k == "getxml":
        if not ok:
            return ok, None
        x = ET.fromstring(t)
        return ok, struct.pack("<Hi", int(x[0].text), int(x[1].text))
    if k == "rule?":
        if not ok:
            return ok, None
        m = re.sub(r"\s+", " ", t).strip()
        for r, s in RULES.items():
            if r and s in m:
                return ok, r
        return ok, 0
    if k == "export":
        return (ok, exported(ET.fromstring(t.encode()), op[1], op[2])) if ok else (ok, None)
    if k == "exportall":
        if not ok:
            return ok, None
        x = ET.fromstring(t.encode())
        names = frozenset(d.get("Name") for d in x.findall("ConfigurableDomain")) - {"D", "E", "N"}
        n = x.find("ConfigurableDomain[@Name='N']")
        seq = frozenset(d.get("Name") for d in x.findall("ConfigurableDomain") if d.get("SequenceAware") == "true") - {"E"}
        names = names, seq, frozenset(c.get("Name") for c in n.iter("Configuration")), frozenset(c.get("Path") for c in n.findall("ConfigurableElements/ConfigurableElement"))
        e = [exported(x.find("ConfigurableDomain[@Name='%s']" % d), d, c) for d, c in (("D", "C1"), ("D", "C2"), ("E", "E1"), ("E", "E2"))]
        return ok, names + tuple((v[0][0:8] if i < 2 else v[0][8:12]) for i, v in enumerate(e)) + tuple(v[1] for v in e) + (e[2][2], e[3][2])
    return ok, None

def exported(x, d, c):
    r = x.find("Configurations/Configuration[@Name='%s']/CompoundRule/SelectionCriterionRule" % c)
    rule = 0
    if r is not None:
        rule = {("Is", "one"): 1, ("Is", "two"): 2, ("IsNot", "one"): 3}[(r.get("MatchesWhen"), r.get("Value"))]
    out = bytearray(12)
    elems = x.findall("Settings/Configuration[@Name='%s']/ConfigurableElement" % c)
    order = 0 if d == "D" else SEQ.index(tuple(e.get("Path") for e in elems))
    for e in elems:
        for p in e.iter("IntegerParameter"):
            n = p.get("Name")
            o, f = {"p": (0, "<I"), "q": (4, "<I"), "u": (8, "<H"), "v": (10, "<H")}[n]
            struct.pack_into(f, out, o, int(p.text))
    return bytes(out), rule, order

def agree(op, want, got):
    if op[0] == "list" and op[1] == "listDomains":
        return want == got
    if op[0] == "export" and want is not None and got is not None:
        i = CONF[op[1:3]]
        a, b = want[0], got[0]
        return want[1:] == got[1:] and (a[:8] == b[:8] if i < 2 else a[8:12] == b[8:12])
    return want is None or want == got

FACTS = [("h", p, "info") for p in ("/test", "/test/s", "/test/s/a", "/test/s/b", "/test/s/b/x", "/test/s/e")] + \
        [("h", p, k) for p in ("/test/s", "/test/s/b") for k in ("structxml",)] + [("h", "/test/s/e/v", "map", "Obj")] + \
        [("cmd", c, p) for c in ("listElements", "listParameters", "getElementStructureXML", "getElementSize", "showProperties", "showMapping")
         for p in ("/test", "/test/s", "/test/s/b", "/test/s/d/q", "/test/s/e/u", "/test/s/nothing") if (c, p) != ("getElementStructureXML", "/test/s/d/q")] + \
        [("cmd", "getSystemClassXML"), ("cmd", "help"), ("cmd", "version"), ("cmd", "listCriteria", "XML", "extra", "extra"), ("cmd", "getElementSize"), ("cmd", "unknown")]

# ------------------------------------------------------------------------------ workload
class Values:
    def __init__(self, r):
        self.r, self.n = r, r.randint(1, 50)
    def next(self):
        self.n += 1
        return self.n
    def value(self, path):
        v = self.next()
        f = LEAF[path][2]
        if f == "4I":
            return (v,) * 4
        if f == "s":
            return (chr(97 + v % 26) + "%d" % (v % 10)) * self.r.choice([1, 4, 7])
        return (v * (1 if f in "Hi" else 70001),)

MIXES = [
    dict(get=4, set=5, hget=3, hset=4, bytes=3, setbytes=3, setxml=2, getxml=2, tuning=2),
    dict(get=2, set=2, bytes=3, hset=2, hget=2, setbytes=1, tuning=3, restore=2, save=2, getc=2, setc=2, rule=1, order=1, autosync=1, export=1),
    dict(set=3, get=3, tuning=5, hset=4, hget=2, autosync=2, sync=2, bytes=1, status=3),
    dict(list=2, status=1, create=4, delete=3, rename=2, exportall=3, export=2, getc=2, setc=2, save=1, rule=2, tuning=2, seq=2, **{"rule?": 2, "seq?": 2}),
    dict(own=6, split=2, hset=6, rogue=3, list=4, nconf=3, tuning=4, exportall=1, getxml=1, setxml=1, save=1, set=1),
    dict(fact=9, get=1, set=1, own=1, tuning=1, bytes=1, create=1, exportall=1),
    dict(get=1, bytes=3, restore=3, setc=3, getc=2, order=2, save=2, tuning=2, rule=2, list=1, status=2, export=1, setbytes=1),
]

def gen_op(r, mix, vals, tuner, facts=None):
    k = r.choices(list(mix), list(mix.values()))[0]
    if k in ("set", "get"):
        p = r.choice(list(LEAF))
        return (k, p, vals.value(p)) if k == "set" else (k, p)
    if k in ("hset", "hget"):
        p = r.choice(["/test/s/a", "/test/s/a", "/test/s/t", "/test/s/b/x", "/test/s/b/y"]) if k == "hset" else r.choice(list(LEAF))
        return (k, p, vals.value(p)) if k == "hset" else (k, p)
    if k == "bytes":
        return (k, r.choice(["/test", "/test", "/test/s/a", "/test/s/b", "/test/s/d", "/test/s/e"]))
    if k == "setbytes":
        p = r.choice(["/test", "/test/s/b", "/test/s/d", "/test/s/e", "/test/s/a"])
        o, n = ELEM[p]
        m = b"".join(enc(q, vals.value(q)) for q in sorted(LEAF, key=lambda q: LEAF[q][0]))
        return (k, p, m[o:o + n])
    if k == "setxml":
        v = vals.next()
        return (k, struct.pack("<Hi", v, -v))
    if k == "tuning":
        return (k, r.random() < .5 or not tuner)
    if k == "autosync":
        return (k, r.random() < .6)
    if k in ("save", "restore"):
        return (k,) + r.choice(list(CONF))
    if k in ("getc", "setc"):
        d, c = r.choice(list(CONF))
        p = r.choice(["/test/s/d/p", "/test/s/d/q"] if d == "D" else ["/test/s/e/u", "/test/s/e/v"])
        return (k, d, c, p) + ((vals.value(p),) if k == "setc" else ())
    if k in ("create", "delete"):
        return (k, r.choice("XYZ"))
    if k == "seq":
        return (k, r.choice("NNX"), r.random() < .5)
    if k == "seq?":
        return (k, r.choice("NNX"))
    if k == "nconf":
        return (k, r.random() < .6, r.choice(["N1", "N2"]))
    if k == "own":
        return (k, r.random() < .6, r.choice(["/test/s/b", "/test/s/b", "/test/s/b/x", "/test/s/b/y"]))
    if k == "list":
        return (k,) + r.choice([("listDomains",), ("listConfigurations", "N"), ("listDomainElements", "N"), ("getElementSequence", "E", r.choice(["E1", "E2"])),
                                (r.choice(["listBelongingDomains", "listAssociatedDomains"]), r.choice(["/test/s/b", "/test/s/b/x"])), ("listRogueElements",),
                                ("listAssociatedElements",), ("listConflictingElements",), ("dumpDomains",), ("dumpElement", "/test/s")])
    if k == "rogue":
        return (k, r.choice(["/test/s/b", "/test/s/b/x", "/test/s/b/y"]))
    if k == "rename":
        return (k, r.choice("XYZ"), r.choice("XYZ"))
    if k == "rule":
        return (k,) + r.choice(list(CONF)) + (r.choice([0, 1, 2, 3]),)
    if k == "rule?":
        return (k,) + r.choice(list(CONF))
    if k == "order":
        return (k, "E", r.choice(["E1", "E2"]), r.randrange(2))
    if k == "export":
        return (k,) + r.choice(list(CONF))
    if k == "fact":
        return (k,) + r.choice(facts)
    return (k,)

def explain(threads, events, s0, limit=400000):
    """Search a sequential order of the calls, respecting real time, that explains every answer and
    the order and contents of the hardware writes. -> (found, final state, best progress)"""
    n = len(threads)
    start = (0,) * n
    seen = set()
    stack = [(start, 0, s0)]
    best = (-1, start, 0, s0)
    nev = len(events)
    steps = 0
    total = sum(len(t) for t in threads)
    while stack:
        idx, ep, s = stack.pop()
        key = (idx, ep, s)
        if key in seen:
            continue
        seen.add(key)
        steps += 1
        if steps > limit:
            return None, None, best
        done = sum(idx)
        if done > best[0]:
            best = (done, idx, ep, s)
        if done == total:
            if ep == nev:
                return True, s, best
            continue
        # an operation may come next if no other pending one returned before it was invoked
        low = min(threads[t][idx[t]][2] for t in range(n) if idx[t] < len(threads[t]))
        for t in range(n):
            if idx[t] >= len(threads[t]):
                continue
            op, inv, ret, got = threads[t][idx[t]]
            if inv > low:
                continue
            ok, want, s2, groups = step(s, op)
            if ok != got[0] or ok and not agree(op, want, got[1]):
                continue
            e = ep
            good = True
            for g in groups:
                if sorted(events[e:e + len(g)]) != g:
                    good = False
                    break
                e += len(g)
            if good:
                stack.append((idx[:t] + (idx[t] + 1,) + idx[t + 1:], e, s2))
    return False, None, best

def initial(r, vals):
    m = b"".join(enc(q, vals.value(q)) for q in sorted(LEAF, key=lambda q: LEAF[q][0]))
    confs = tuple(b"".join(enc(q, vals.value(q)) for q in sorted(LEAF, key=lambda q: LEAF[q][0])) for _ in range(4))
    rules = (r.choice([1, 2, 3]), r.choice([1, 2, 3]), r.choice([1, 2, 3]), r.choice([1, 2, 0]))
    return State(False, True, m, 1, confs, rules, (r.randrange(2), r.randrange(2)), (None, None), frozenset(), frozenset(), frozenset(), frozenset())

def concurrent(ctx, rng, case, nthreads=(2, 5), nops=(5, 16)):
    h = ctx.host()
    d = fresh_dir(ctx, "c")
    vals = Values(rng)
    s = initial(rng, vals)
    cfg = mini.files(d, ctx.out, mini.structure(INSTANCE), domains(s))
    ctx.op = "start"
    m = mini.Mini(h, cfg, 1, [("Crit", False, [(1, "one"), (2, "two"), (4, "three")])])
    def bad(aspect, detail):
        raise Mismatch("concurrent", aspect, detail)
    try:
        h.call("setcrit", 1, "Crit", s.crit)
        ok, e = m.start()
        if not ok:
            raise HarnessError("EXCEPTION harness: start failed: " + e)
        ev = Ev()
        # what is not covered by an applicable configuration is read back as zero (the objects write nothing)
        h.raw("hw", "events", 1)
        ok, f = h.callb("h", 1, "/test", "getbytes")
        s = s._replace(mem=bytes(SIZE))
        s = apply(s, True, ev)
        if f[0] != s.mem:
            raise Mismatch("start", "values", "%s, expected %s" % (f[0].hex(), s.mem.hex()))
        ok, f = h.call("hw", "objs", 1)
        path = {f[k].encode(): f[k + 5] for k in range(0, len(f), 8)}
        h.call("hw", "delay", rng.choice([0, 0, 20, 100, 300]))
        _, o0 = h.call("hw", "overlaps")
        facts = []
        for _ in range(rng.randint(1, 3)):
            mix = rng.choice(MIXES)
            if "fact" in mix and not facts:
                order = rng.sample(FACTS, 12)
                # some are asked for the first time by the threads, all at once; the answer must be the one given when alone, later
                facts = [(q, None) for q in order]
            nt = rng.randint(*nthreads)
            progs = []
            # criteria change under the feet of nobody: the thread changing them is the only one to apply
            changing = rng.random() < .6
            for t in range(nt):
                tuner = t == 0 or not changing
                ops = []
                for _ in range(rng.randint(*nops)):
                    if (t == 0 if changing else rng.random() < .5) and rng.random() < .5:
                        if changing and rng.random() < .6:
                            ops.append((("setcrit", rng.choice([1, 2, 4])), 0))
                        ops.append((("apply",), 0))
                    else:
                        ops.append((gen_op(rng, mix, vals, tuner, facts), rng.randrange(2)))
                progs.append(ops)
            req = ["par", "1", str(nt)]
            shape = []
            for ops in progs:
                l = []
                for op, route in ops:
                    if rng.random() < .2:
                        l.append((None, ["sleep", str(rng.choice([1, 30, 150, 400]))]))
                    l.append((op, fields(op, route, 1)))
                req.append(str(len(l)))
                for op, f in l:
                    req.append(str(len(f)))
                    req += f
                shape.append([op for op, f in l])
            ctx.op = "concurrent"
            ok, out = h.callb(*req)
            p = 0
            threads = []
            for l in shape:
                th = []
                for op in l:
                    inv, ret, n = int(out[p]), int(out[p + 1]), int(out[p + 2])
                    f = out[p + 3:p + 3 + n]
                    p += 3 + n
                    if op is None:
                        continue
                    if f[0] == b"E":
                        raise Mismatch("concurrent", "exception", "%r: %s" % (op, f[1]))
                    th.append((op, inv, ret, observed(op, f)))
                threads.append(th)
            # what everybody sees afterwards belongs to the history; leaving tuning mode settles what was applied last
            clock = max((x[2] for th in threads for x in th), default=0) + 1
            after = []
            for op in (("bytes", "/test"), ("exportall",), ("tuning?",), ("autosync?",), ("tuning", True), ("tuning", False), ("bytes", "/test"), ("exportall",), ("status",)):
                f = h.raw(*fields(op, 0, 1))
                after.append((op, clock, clock + 1, observed(op, f)))
                clock += 2
            threads.append(after)
            raw = h.raw("hw", "events", 1)[1:]
            events = [(path[raw[k]], tidy(path[raw[k]], bytes(raw[k + 2]))) for k in range(0, len(raw), 3)]
            allops = sorted((x for th in threads for x in th), key=lambda x: x[1])
            ctx.note("calls", len(allops))
            ctx.note("hardware writes", len(events))
            alone = {}
            for x in allops:
                if x[0][0] == "fact":
                    q = x[0][1]
                    if q not in alone:
                        alone[q] = observed(x[0], h.raw(*fields(x[0], 0, 1)))
                    ctx.note("questions about the structure")
                    if x[3] != alone[q]:
                        bad("structure", "%r was answered %r, and %r when asked alone" % (q, x[3][1], alone[q][1]))
            over = sum(1 for i, x in enumerate(allops) for y in allops[i + 1:i + 6] if y[1] < x[2])
            ctx.note("overlapping calls", over)
            ctx.log.append("round: %d threads, %s" % (nt, [(i,) + x[0] + (x[3][0],) for i, th in enumerate(threads) for x in th][:80]))
            _, o1 = h.call("hw", "overlaps")
            if o1 != o0:
                bad("overlap", "two threads were in the callbacks of one instance's subsystem at the same time")
            # arrays and strings are written whole
            for p_, b in events:
                if p_ == "/test/s/a" and b != b[:4] * 4:
                    bad("torn", "the hardware of the array received %s" % b.hex())
            for x in allops:
                if x[0][0] in ("get", "hget") and x[0][1] == "/test/s/a" and x[3][0] and len(set(x[3][1].split())) != 1:
                    bad("torn", "a reader of the array saw %r" % x[3][1])
            found, s2, best = explain(threads, events, s)
            if found is None:
                ctx.note("rounds without an answer within the search bound")
                return
            if not found:
                pend = [threads[t][i] for t, i in enumerate(best[1]) if i < len(threads[t])]
                bad("order", "no sequential order of the calls explains their answers: after %d of %d calls and %d of %d hardware writes, pending %s, state %s, next writes %s"
                    % (best[0], len(allops), best[2], len(events), pend, best[3], events[best[2]:best[2] + 3]))
            ctx.note("rounds explained")
            ctx.note("rounds with overlapping calls", 1 if over else 0)
            s = s2
    finally:
        if ctx._host is not None and h.p.poll() is None:
            h.call("del", 1)

# ------------------------------------------------------------------------------ threads with instances of their own
def neutral(req, out):
    """A reply without what is not determined: the order of the writes of one synchronization, and so of its errors."""
    if req[0] == b"hw" and req[1] == b"events" and out[0] == b"1":
        return [out[0]] + sorted(b"|".join(out[k:k + 3]) for k in range(1, len(out), 3))
    if req[0] == b"cmd" and req[2].startswith(b"list"):
        return [out[0]] + sorted(b"\n".join(out[1:]).split(b"\n"))
    if any(b"hardware refused" in x for x in out):
        return out[:1] + [b"\n".join(sorted(x.split(b"\n"))) for x in out[1:]]
    return list(out)

def parallel(ctx, rng, case, nops=30, prof=None, n=4):
    """Histories run one after the other, then at once on threads: every instance must answer as it did alone."""
    h = ctx.host()
    k = rng.randint(2, n)
    lists = []
    ctx.op = "alone"
    try:
        for i in range(k):
            h.rec = []
            p = dict(prof or {})
            p["weights"] = dict(p["weights"], badimport=0, domtrip=0, domone=0, partimport=0)
            d = os.path.join(ctx.scratch, "p%d" % i)
            shutil.rmtree(d, ignore_errors=True)
            w = World(h, random.Random(rng.random()), d, ctx.out, p, i + 1, ctx.note)
            try:
                w.run(rng.randint(nops // 3, nops))
            except Mismatch as e:
                raise Mismatch("both", e.tag.replace(":", "-"), e.detail)
            h.call("del", i + 1)
            lists.append(h.rec)
    finally:
        h.rec = None
        if ctx._host is not None and h.p.poll() is None:
            for i in range(k):
                h.call("del", i + 1)
    ctx.op = "parallel"
    h.call("hw", "delay", rng.choice([0, 50, 200, 500]))
    for round in range(2):
        req = ["par", "0", str(k)]
        for l in lists:
            ops = []
            for f, out in l:
                if rng.random() < .03:
                    ops.append(["sleep", str(rng.choice([1, 50, 400]))])
                ops.append(f)
            req.append(str(len(ops)))
            for f in ops:
                req.append(str(len(f)))
                req += f
            l.append(ops)
        ok, out = h.callb(*req)
        p = 0
        spans = []
        for i, l in enumerate(lists):
            ops = l.pop()
            it = iter(l)
            for f in ops:
                inv, ret, m = int(out[p]), int(out[p + 1]), int(out[p + 2])
                got = out[p + 3:p + 3 + m]
                p += 3 + m
                if f[0] == "sleep":
                    continue
                spans.append((inv, ret))
                f, want = next(it)
                ctx.note("answers compared")
                if neutral(f, got) != neutral(f, want):
                    raise Mismatch("parallel", f[0].decode(), "instance %d answers %s to %s while others run, and %s alone"
                                   % (i + 1, [x[:200] for x in got[:6]], [bytes(x)[:200] for x in f], [x[:200] for x in want[:6]]))
        spans.sort()
        over = sum(1 for a, b in zip(spans, spans[1:]) if b[0] < a[1])
        ctx.note("calls overlapping those of another instance", over)
        h.call("hw", "delay", 0)
        ctx.log.append("%d instances, %d calls, %d overlapping" % (k, len(spans), over))
