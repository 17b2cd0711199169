"""Driver: executes the requests of pfhost, those of the client interface through the Python bindings
(the object of the bindings and the rest of the driver share the one instance of the framework)."""
import sys, os, struct, ctypes, gc, random, traceback

out, bind, seed = sys.argv[1:4]
reply = os.dup(1)
os.dup2(2, 1)
sys.path.insert(0, bind)
import PyPfw
lib = ctypes.CDLL(os.path.join(out, "libpyhost.so"))
lib.pyhost_call.restype = ctypes.c_void_p
lib.pyhost_call.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.POINTER(ctypes.c_size_t)]
lib.pyhost_adopt.argtypes = [ctypes.c_int, ctypes.c_void_p]
lib.pyhost_enter.argtypes = [ctypes.c_int]
lib.pyhost_forget.argtypes = [ctypes.c_int]
lib.pyhost_free.argtypes = [ctypes.c_void_p]
rng = random.Random(seed)

class Wrong(Exception):
    """The bindings do not answer as documented."""

class Logger(PyPfw.ILogger):
    def __init__(self):
        super(Logger, self).__init__()
        self.lines = []
    def add(self, kind, l):
        if type(l) is not str:
            raise Wrong("a log line is a %s" % type(l))
        if len(self.lines) < 4000:
            self.lines.append(kind + l)
    def info(self, l):
        self.add("I", l)
    def warning(self, l):
        self.add("W", l)

def lone():
    """An object which starts from no file, and goes."""
    pf = PyPfw.ParameterFramework("/nonexistent/" + "x" * rng.randrange(20))
    l = Logger()
    pf.setLogger(l)
    pf.setForceNoRemoteInterface(True)
    ok, err = call(pf.start, "start", (bool, str))
    if ok or not err:
        raise Wrong("start without file answers %r" % ((ok, err),))
    if pf.getSelectionCriterion("x") is not None:
        raise Wrong("an unknown criterion is not None")
    if not l.lines or any(type(x) is not str for x in l.lines):
        raise Wrong("the failed start logs %r" % l.lines)
    pf = None       # before its logger

class Inst:
    pass
insts = {}

def call(f, what, shape):
    """Results of a call, checked against the documented shape."""
    try:
        r = f()
    except Exception as e:
        raise Wrong("%s raises %s: %s" % (what, type(e).__name__, e))
    got = list(r) if isinstance(r, (list, tuple)) else [r]
    if (len(shape) > 1) != isinstance(r, (list, tuple)) or len(got) != len(shape):
        raise Wrong("%s answers %r" % (what, r))
    for g, s in zip(got, shape):
        if s is list:
            if not isinstance(g, (list, tuple, PyPfw.StringVector)) or any(type(x) is not str for x in g):
                raise Wrong("%s answers %r" % (what, r))
        elif type(g) is not s:
            raise Wrong("%s answers %r" % (what, r))
    return got

def B(x):
    return x == "1"
def S(b):
    return "1" if b else "0"

STATUS = {  # request -> method and its arguments (b: flag)
    "setTuningMode": ("setTuningMode", "b"), "setAutoSync": ("setAutoSync", "b"), "sync": ("sync", ""),
    "createDomain": ("createDomain", "s"), "deleteDomain": ("deleteDomain", "s"), "renameDomain": ("renameDomain", "ss"),
    "deleteAllDomains": ("deleteAllDomains", ""), "setSeq": ("setSequenceAwareness", "sb"),
    "createConf": ("createConfiguration", "ss"), "deleteConf": ("deleteConfiguration", "ss"),
    "renameConf": ("renameConfiguration", "sss"), "saveConf": ("saveConfiguration", "ss"),
    "addElem": ("addConfigurableElementToDomain", "ss"), "removeElem": ("removeConfigurableElementFromDomain", "ss"),
    "split": ("split", "ss"), "setRule": ("setApplicationRule", "sss"), "clearRule": ("clearApplicationRule", "ss"),
    "importDomains": ("importDomainsXml", "sbb"), "importDomain": ("importSingleDomainXml", "sbbb"),
    "importDomain2": ("importSingleDomainXml", "sb"),
}

def api(i, m, a):
    pf = i.pf
    if m in STATUS:
        name, kinds = STATUS[m]
        args = [B(x) if k == "b" else x for k, x in zip(kinds, a)]
        if args and rng.random() < .05:     # what is none of the arguments is refused, and changes nothing
            bad = list(args)
            k = rng.randrange(len(bad))
            if rng.random() < .2:
                bad = bad[:-1] if name != "importSingleDomainXml" else bad + [None] * 9
            else:
                bad[k] = rng.choice([None, 5, 2.5, b"x", ["x"]] if kinds[k] == "s" else [None, "1", "x", 2.5, []])
            try:
                r = getattr(pf, name)(*bad)
            except (TypeError, ValueError):
                pass
            except Exception as e:
                raise Wrong("%s%r raises %s: %s" % (name, tuple(bad), type(e).__name__, e))
            else:
                raise Wrong("%s%r answers %r" % (name, tuple(bad), r))
        ok, err = call(lambda: getattr(pf, name)(*args), name, (bool, str))
        return [S(ok), err]
    if m == "isTuningModeOn" or m == "isAutoSyncOn":
        return ["1", S(call(getattr(pf, m), m, (bool,))[0])]
    if m == "setValueSpace" or m == "setOutputRawFormat":
        get = {"setValueSpace": pf.isValueSpaceRaw, "setOutputRawFormat": pf.isOutputRawFormatHex}[m]
        call(lambda: getattr(pf, m)(B(a[0])), m, (type(None),))
        return ["1", S(call(get, m, (bool,))[0])]
    if m == "get" or m == "set":
        v = a[1] if m == "set" else rng.choice(["", "x"])
        ok, v2, err = call(lambda: pf.accessParameterValue(a[0], v, m == "set", ), "accessParameterValue", (bool, str, str))
        if m == "set":
            return [S(ok), err]
        return [S(ok), v2 if ok else err]
    if m == "getc" or m == "setc":
        v = a[3] if m == "setc" else rng.choice(["", "x"])
        ok, v2, err = call(lambda: pf.accessConfigurationValue(a[0], a[1], a[2], v, m == "setc"), "accessConfigurationValue", (bool, str, str))
        if m == "setc":
            return [S(ok), err]
        return [S(ok), v2 if ok else err]
    if m == "mapping":
        ok, v = call(lambda: pf.getParameterMapping(a[0]), "getParameterMapping", (bool, str))
        return [S(ok), v]
    if m == "getSeq":
        ok, b, err = call(lambda: pf.getSequenceAwareness(a[0]), "getSequenceAwareness", (bool, bool, str))
        return [S(ok), S(b) if ok else err]
    if m == "getRule":
        ok, v = call(lambda: pf.getApplicationRule(a[0], a[1]), "getApplicationRule", (bool, str))
        return [S(ok), v]
    if m == "restoreConf":
        ok, errs = call(lambda: pf.restoreConfiguration(a[0], a[1]), "restoreConfiguration", (bool, list))
        return [S(ok), ""] + list(errs)
    if m == "setElemSeq":
        l = list(a[2:])
        if rng.random() < .3:
            l = tuple(l)
        elif rng.random() < .3:
            l = PyPfw.StringVector(l)
        ok, err = call(lambda: pf.setElementSequence(a[0], a[1], l), "setElementSequence", (bool, str))
        return [S(ok), err]
    if m == "exportDomains":
        ok, v, err = call(lambda: pf.exportDomainsXml(a[0], B(a[1]), B(a[2])), "exportDomainsXml", (bool, str, str))
        return [S(ok), v if ok else err]
    if m == "exportDomain":
        ok, v, err = call(lambda: pf.exportSingleDomainXml(a[0], a[1], B(a[2]), B(a[3])), "exportSingleDomainXml", (bool, str, str))
        return [S(ok), v if ok else err]
    return None

FLAGS = {"missing": ("setFailureOnMissingSubsystem", "getFailureOnMissingSubsystem"),
         "settings": ("setFailureOnFailedSettingsLoad", "getFailureOnFailedSettingsLoad"),
         "validate": ("setValidateSchemasOnStart", "getValidateSchemasOnStart")}

def handle(f):
    """-> reply, None when the request is none of the bindings'"""
    op = f[0]
    if op == "seed":
        rng.seed(f[1])
        return ["1"]
    if op == "new":
        if rng.random() < .3:
            lib.pyhost_enter(-1)
            lone()
        i = Inst()
        lib.pyhost_enter(int(f[1]))
        i.pf = PyPfw.ParameterFramework(f[2])
        i.log = Logger()
        i.pf.setLogger(i.log)
        i.pf.setForceNoRemoteInterface(not B(f[3]))
        if call(i.pf.getForceNoRemoteInterface, "getForceNoRemoteInterface", (bool,))[0] == B(f[3]):
            raise Wrong("setForceNoRemoteInterface has no effect")
        i.types = {}
        insts[int(f[1])] = i
        lib.pyhost_adopt(int(f[1]), int(i.pf.this))
        return ["1", ""]
    if op in ("rps", "c", "hw", "ping", "h", "cmd", "quit"):
        return None
    i = insts.get(int(f[1]))
    if i is None:
        return None
    if op == "del":
        raw(f)                  # what the driver holds goes first
        del insts[int(f[1])]
        i.types.clear()
        i.pf = None
        i.log = None
        lib.pyhost_forget(int(f[1]))
        return ["1", ""]
    if op == "type":
        t = i.types[f[2]] = i.pf.createSelectionCriterionType(B(f[3]))
        r = ["1"]
        for n, l in zip(f[4::2], f[5::2]):
            ok, err = call(lambda: t.addValuePair(int(n), l), "addValuePair", (bool, str))
            if ok == (err != ""):
                raise Wrong("addValuePair answers %r" % ([ok, err],))
            r += [S(ok), err]
        if call(t.isTypeInclusive, "isTypeInclusive", (bool,))[0] != B(f[3]):
            raise Wrong("isTypeInclusive contradicts createSelectionCriterionType")
        return r
    if op == "crit":
        c = i.pf.createSelectionCriterion(f[2], i.types[f[3]])
        if c is not None and call(c.getCriterionName, "getCriterionName", (str,))[0] != f[2]:
            raise Wrong("a criterion has another name than %r" % f[2])
        return [S(c is not None), ""]
    if op == "flag":
        if f[2] == "schema":
            i.pf.setSchemaUri(f[3])
            if i.pf.getSchemaUri() != f[3]:
                raise Wrong("getSchemaUri answers %r" % i.pf.getSchemaUri())
            return ["1", ""]
        set_, get = (getattr(i.pf, x) for x in FLAGS[f[2]])
        ok, err = call(lambda: set_(B(f[3])), FLAGS[f[2]][0], (bool, str))
        if ok and call(get, FLAGS[f[2]][1], (bool,))[0] != B(f[3]):
            raise Wrong("%s has no effect" % FLAGS[f[2]][0])
        return [S(ok), err]
    if op == "start":
        lib.pyhost_enter(int(f[1]))
        ok, err = call(i.pf.start, "start", (bool, str))
        return [S(ok), err, S(ok)]
    if op in ("setcrit", "getcrit", "critlit", "critvals"):
        c = i.pf.getSelectionCriterion(f[2])
        if c is None:
            return ["0", "no criterion"]
        t = c.getCriterionType()
        if op == "setcrit":
            call(lambda: c.setCriterionState(int(f[3])), "setCriterionState", (type(None),))
            return ["1", ""]
        if op == "getcrit":
            v = call(c.getCriterionState, "getCriterionState", (int,))[0]
            return ["1", str(v), call(c.getCriterionName, "getCriterionName", (str,))[0],
                    call(lambda: t.getFormattedState(v), "getFormattedState", (str,))[0]]
        if op == "critlit":
            ok, v = call(lambda: t.getNumericalValue(f[3]), "getNumericalValue", (bool, int))
            return [S(ok), str(v)]
        r = ["1", S(call(t.isTypeInclusive, "isTypeInclusive", (bool,))[0])]
        for n in f[3:]:
            ok, l = call(lambda: t.getLiteralValue(int(n)), "getLiteralValue", (bool, str))
            r += [S(ok), l if ok else ""]
        return r
    if op == "apply":
        call(i.pf.applyConfigurations, "applyConfigurations", (type(None),))
        return ["1", ""]
    if op == "logs":
        l, i.log.lines = i.log.lines, []
        return ["1"] + l
    if op == "api":
        return api(i, f[2], f[3:])
    return None

def raw(f):
    fs = [x if isinstance(x, bytes) else x.encode("utf-8", "surrogateescape") for x in f]
    m = struct.pack("<I", len(fs)) + b"".join(struct.pack("<I", len(x)) + x for x in fs)
    n = ctypes.c_size_t()
    p = lib.pyhost_call(m, len(m), ctypes.byref(n))
    b = ctypes.string_at(p, n.value)
    lib.pyhost_free(p)
    return b

def read(n):
    b = b""
    while len(b) < n:
        d = os.read(0, n - len(b))
        if not d:
            raise EOFError
        b += d
    return b

def main():
    while True:
        try:
            n = struct.unpack("<I", read(4))[0]
        except EOFError:
            break
        fs = [read(struct.unpack("<I", read(4))[0]) for _ in range(n)]
        if fs[0] == b"quit":
            break
        r = None
        try:
            text = [x.decode("utf-8") for x in fs]
        except UnicodeDecodeError:      # the bindings take texts
            text = None
        if text is not None and not any("\0" in x for x in text):
            try:
                r = handle(text)
            except Wrong as e:
                r = ["E", "BINDINGS " + str(e)]
            except Exception:
                r = ["E", "EXCEPTION " + traceback.format_exc()[-1500:]]
        if r is None:
            b = raw(fs)
        else:
            rs = [x.encode("utf-8", "surrogateescape") for x in r]
            b = struct.pack("<I", len(rs)) + b"".join(struct.pack("<I", len(x)) + x for x in rs)
        if rng.random() < .01:
            gc.collect()
        while b:
            k = os.write(reply, b)
            b = b[k:]
    for i in list(insts):
        handle(["del", str(i)])
    lib.pyhost_finish()

main()
sys.stdout.flush()
os._exit(0)
