"""The client simulator: what reaches the platform and the shell against what its scenarios say."""
import os, json, select, subprocess, time
from . import mini as M
from .world import Mismatch
from .host import HarnessError

SRC = os.environ.get("PF_SRC", "/repo") + "/tools/clientSimulator"
PYTHON = "/usr/bin/python3"

# Stand-ins for the platform, its client, the scripts and the coverage tool: each records what it was given, a line at a time.
RECORD = """#!/usr/bin/python3 -SE
import os, sys, time, signal
def rec(*f):
    fd = os.open(%(rec)r, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (repr(f) + "\\n").encode())
    os.close(fd)
"""
PLATFORM = RECORD + """
def end(s, f):
    rec("platform ends")
    os._exit(0)
signal.signal(signal.SIGINT, end)
rec("platform", sys.argv[1:])
for l in %(says)r:
    os.write(1, (l + "\\n").encode())
for i in range(%(life)d):
    time.sleep(.05)
rec("platform left running")
"""
CLIENT = RECORD + """
rec("request", sys.argv[1:])
os.write(1, b"Done\\n")
"""
SCRIPT = RECORD + """
rec("begin", %(name)r)
os.write(1, %(says)r)
time.sleep(%(time)r)
rec("end", %(name)r)
"""
COVER = RECORD + """
rec("coverage", sys.argv[1:])
"""
NOVALUE = "0"

def exe(d, path, text, **k):
    p = M.put(d, path, text % dict(k, rec=os.path.join(d, "record")))
    os.chmod(p, 0o755)
    return p

class Crit:
    def __init__(self, name, inc, values):
        self.name, self.inc, self.values = name, inc, values

class Setup:
    """A test directory and the stand-ins."""
    def __init__(self, ctx, rng, d):
        self.rng, self.d = rng, d
        self.t = t = os.path.join(d, "tests")
        M.files(d, ctx.out, "")
        used = set()
        self.crits = []
        for i in range(rng.choice([1, 2, 3, 4])):
            k = rng.randint(1, 4)
            pool = rng.sample(["on", "off", "mad", "a", "b", "ab", "Value_1", "v.2", "x-y", "42", "1", "007", "none", "default"], k)
            self.crits.append(Crit(rng.choice(["Crit%d", "mood%d", "The_%d"]) % i, rng.random() < .5, pool))
        M.put(d, "tests/criteria.txt", "".join("%s %s%s:%s%s\n" % ("InclusiveCriterion" if c.inc else "ExclusiveCriterion", c.name, rng.choice(["", " "]),
              rng.choice(["", " ", "  "]), " ".join(c.values)) for c in self.crits))
        self.port = str(rng.randint(2000, 60000))
        self.says = ["platform line %d %s" % (i, "".join(rng.choice("abc %{}<>'\"|,:") for _ in range(rng.randint(0, 30)))) + "." for i in range(rng.choice([0, 1, 5, 40]))]
        exe(d, "bin/test-platform", PLATFORM, says=self.says, life=600)
        exe(d, "bin/remote-process", CLIENT)
        self.prefix = rng.choice(["", "", "env A=b", "command"])
        self.conf = {"PrefixCommand": self.prefix, "TestPlatformPort": self.port, "CriterionFile": "criteria.txt",
                     "PfwConfFile": rng.choice(["top.xml", "/some/where/top.xml", "sub/top.xml"]), "ScenariosDirectory": rng.choice(["scenarios", "my-vectors", os.path.join(t, "abs")])}
        self.scripts, self.gathered = {}, {}
        if rng.random() < .7:
            sd = rng.choice(["", "scripts/"])
            self.conf["ScriptsFile"] = sd + "scripts.json"
            for i in range(rng.choice([0, 1, 2, 3])):
                n, f = "script%d" % i, rng.choice(["run%d.sh", "deep/run%d"]) % i
                how = rng.choice(["synchronous", "synchronous", "asynchronous", "asynchronous", "whatever"])
                exe(d, "tests/" + sd + f, SCRIPT, name=n, says=("script %d speaks\n" % i).encode(), time=rng.choice([0, 0, .05, .15]))
                self.scripts[n] = (f, how)
            M.put(d, "tests/" + sd + "scripts.json", json.dumps(self.scripts))
        if rng.random() < .7:
            self.conf["ActionGathererFile"] = "actions.json"
            for i in range(rng.choice([1, 2, 3])):
                self.gathered["act%d" % i] = {"setCriterion": self.values(.5)}
            M.put(d, "tests/actions.json", json.dumps(self.gathered))
        self.logfile = None
        self.coverage = rng.random() < .4
        if self.coverage or rng.random() < .7:
            self.conf["LogFile"] = rng.choice(["log", "the.log"])
            self.logfile = os.path.join(t, self.conf["LogFile"])
        if self.coverage:
            exe(d, "tests/cover/aplog2coverage.sh", COVER)
            self.conf.update(CoverageDir="cover", CoverageFile="cov.html", PfwDomainConfFile="domains.xml")
        self.sdir = os.path.join(t, self.conf["ScenariosDirectory"])
        os.makedirs(self.sdir, exist_ok=True)
        M.put(d, "tests/conf.json", json.dumps(self.conf))

    def value(self, c):
        r = self.rng
        if not c.inc:
            return r.choice(c.values + [NOVALUE]) if r.random() < .9 else NOVALUE
        k = r.random()
        if k < .1:
            return NOVALUE
        if k < .15:
            return ""
        return r.choice([" ", "  "]).join(r.sample(c.values, r.randint(1, len(c.values))))

    def values(self, p=.5):
        out = {c.name: self.value(c) for c in self.crits if self.rng.random() < p}
        if not out:
            c = self.rng.choice(self.crits)
            out[c.name] = self.value(c)
        if self.rng.random() < .1:
            out["NotACriterion"] = "x"
        return out

    def start_commands(self):
        out = [("platform", [os.path.join(self.t, self.conf["PfwConfFile"]), self.port])]
        for c in self.crits:
            out.append(("request", ["localhost", self.port, "create%sSelectionCriterionFromStateList" % ("Inclusive" if c.inc else "Exclusive"), c.name] + c.values))
        return out + [("request", ["localhost", self.port, "start"])]

    def vector(self, values):
        """The requests of a step; None when a value is refused. Values of inclusive criteria come in any order."""
        out = []
        for c in self.crits:
            if c.name not in values:
                continue
            v = values[c.name]
            if c.inc:
                v = v.split()
                if NOVALUE in v:
                    v = [NOVALUE]
                if any(x not in c.values + [NOVALUE] for x in v):
                    return None
                v = sorted(set(v)) or [""]
            else:
                if v not in c.values + [NOVALUE]:
                    return None
                v = [v]
            out.append(("request", ["localhost", self.port, "setCriterionState", c.name] + v))
        return out + [("request", ["localhost", self.port, "applyConfigurations"])]

def norm(e):
    if e[0] == "request" and e[1][2:3] == ["setCriterionState"]:
        return (e[0], e[1][:4] + sorted(e[1][4:]))
    return e

class Run:
    """The simulator, driven through its menus when there are any."""
    def __init__(self, s, argv):
        self.s = s
        env = dict(os.environ, PATH=os.path.join(s.d, "bin") + ":/usr/local/bin:/usr/bin:/bin", SHELL="/bin/sh", PYTHONDONTWRITEBYTECODE="1")
        self.err = open(os.path.join(s.d, "err"), "wb")
        self.p = subprocess.Popen([PYTHON, "-B", SRC + "/pfClientSimulator.py", s.t] + argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env, cwd=s.d, bufsize=0, start_new_session=True)
        self.out = b""

    def until(self, end, timeout=40):
        """Output up to and including end, or to its end."""
        lim = time.time() + timeout
        while end is None or not self.out.endswith(end):
            if not select.select([self.p.stdout], [], [], max(0, lim - time.time()))[0]:
                self.kill()
                raise Mismatch("simulator", "hang", "no end; output %r" % self.out[-800:])
            b = os.read(self.p.stdout.fileno(), 1 << 16)
            if not b:
                break
            self.out += b
        r, self.out = self.out, b""
        return r.decode("utf-8", "replace")

    def menu(self):
        """-> the choices offered, or None at the end"""
        t = self.until(b"Your Choice : ")
        if not t.endswith("Your Choice : "):
            return None, t
        m = t[t.rindex("Please Make a choice"):].split("\n")[1:-1]
        out = []
        for i, l in enumerate(m):
            a, _, b = l.strip().partition(". ")
            if a != str(i):
                raise Mismatch("simulator", "menu", "menu line %r at place %d" % (l, i))
            out.append(b)
        return out, t

    def choose(self, x):
        os.write(self.p.stdin.fileno(), ("%s\n" % x).encode())

    def end(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.until(None)
        try:
            rc = self.p.wait(30)
        except subprocess.TimeoutExpired:
            self.kill()
            raise Mismatch("simulator", "hang", "the simulator does not end")
        self.err.close()
        with open(os.path.join(self.s.d, "err"), "rb") as f:
            self.errs = f.read().decode("utf-8", "replace")
        return rc

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        # those it made leaders of their own groups know our record file
        subprocess.run(["pkill", "-9", "-f", os.path.join(self.s.d, "bin") + "/"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.p.wait()

def record(s, wait=()):
    """What the stand-ins noted."""
    p = os.path.join(s.d, "record")
    lim = time.time() + 20
    while True:
        out = []
        if os.path.exists(p):
            with open(p) as f:
                out = [eval(l) for l in f.read().splitlines()]
        if all(any(e[0] == w for e in out) for w in wait) or time.time() > lim:
            return out
        time.sleep(.02)

def compare(ctx, s, steps, got, run, rc, died):
    """steps: what must have been noted, in order: events, ("script", name) for a script."""
    got = [norm(e) for e in got]
    show = lambda: "expected %s\nnoted %s\nstatus %s, %s" % (steps, got, rc, run.errs[-1500:])
    # ends of the platform and asynchronous scripts may fall anywhere after their beginnings
    main = [e for e in got if e[0] in ("platform", "request", "coverage")]
    want = [norm(e) for e in steps if e[0] in ("platform", "request", "coverage")]
    # the platform is started beside the rest
    if [e for e in main if e[0] != "platform"] != [e for e in want if e[0] != "platform"] or [e for e in main if e[0] == "platform"] != [e for e in want if e[0] == "platform"]:
        raise Mismatch("simulator", "commands", show())
    # requests before, between and after the scripts
    ends = {}
    counts = {}
    pos = 0                                  # requests seen
    began, ended = [], []
    for e in got:
        if e[0] in ("request", "coverage"):
            pos += 1
        elif e[0] == "begin":
            began.append((e[1], pos))
        elif e[0] == "end":
            ended.append((e[1], pos))
    pos = 0
    wb = []
    for e in steps:
        if e[0] in ("request", "coverage"):
            pos += 1
        elif e[0] == "script":
            wb.append((e[1], pos))
    def runs(l):
        # an error may end asynchronous scripts early
        return sorted(n for n, _ in l if not died or s.scripts.get(n, ("", ""))[1] == "synchronous")
    if runs(began) != runs(wb) or runs(ended) != runs(wb) or set(n for n, _ in began) - set(n for n, _ in wb):
        raise Mismatch("simulator", "scripts", show())
    # synchronous: begins and ends at its place; asynchronous: not before it
    for n in set(n for n, _ in wb):
        at = sorted(p for m, p in wb if m == n)
        b = sorted(p for m, p in began if m == n)
        z = sorted(p for m, p in ended if m == n)
        if s.scripts[n][1] == "synchronous":
            if b != at or z != at:
                raise Mismatch("simulator", "scripts", "%s, synchronous, ran at %s to %s: %s" % (n, b, z, show()))
        elif any(p < q for p, q in zip(b, at)):
            raise Mismatch("simulator", "scripts", "%s began early: %s" % (n, show()))
        ctx.note("scripts run", len(at))
    if ("platform ends",) not in got:
        raise Mismatch("simulator", "platform", "the platform is left running: " + show())
    if s.logfile and not died:
        with open(s.logfile, encoding="utf-8") as f:
            log = f.read().splitlines()
        said = [l for l in log if "platform line" in l]
        if len(said) != len(s.says) or any(not l.endswith(" " + w) for l, w in zip(said, s.says)):
            raise Mismatch("simulator", "log", "the log holds %r of what the platform said, %r" % (said[:5], s.says[:5]))
        for n in set(n for n, _ in wb):
            k = sum(l.endswith(" script %s speaks" % n[6:]) for l in log)
            if k != sum(m == n for m, _ in wb):
                raise Mismatch("simulator", "log", "script %s is heard %d times" % (n, k))
        ctx.note("log lines", len(said))
    ctx.note("requests", len(want))

def coverage_event(s):
    return ("coverage", ["-d", os.path.join(s.t, "domains.xml"), "-e.", s.logfile or "", "-f", "-o", os.path.join(s.t, "cov.html")])

# ---------------------------------------------------------------- scenarios
def scenarios(ctx, rng, case):
    ctx.op = "scenarios"
    d = os.path.join(ctx.scratch, "sim")
    s = Setup(ctx, rng, d)
    files, fail = {}, None
    names = rng.sample(["a.json", "b.json", "10.json", "2.json", "Z.json", "first", "first.json"], rng.choice([1, 1, 2, 3, 4]))
    for n in names:
        acts, steps = [], []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            k = rng.random()
            if s.scripts and k < .25:
                x = rng.choice(sorted(s.scripts))
                acts.append({"script": x})
                steps.append([("script", x)])
            elif s.gathered and k < .55:
                g = rng.choice(sorted(s.gathered))
                base = s.gathered[g]["setCriterion"]
                own = {c: v for c, v in s.values(.3).items() if c not in base} if rng.random() < .6 else {}
                acts.append({g: own})
                steps.append(s.vector(dict(base, **own)))
            else:
                v = s.values() if rng.random() < .93 else {}
                if rng.random() < .04:
                    c = rng.choice(s.crits)
                    v[c.name] = "NoSuchValue"
                acts.append({"setCriterion": v})
                steps.append(s.vector(v))
        bad = None
        k = rng.random()
        if k < .03:
            acts.append({"unknown": {}})
            bad = "action"
        elif k < .05:
            acts.append({"script": "nowhere"})
            steps.append("dies")
        files[n] = (bad, steps)
        M.put(s.sdir, n, json.dumps(acts))
    order = sorted(names)
    play = [rng.randrange(len(order)) for _ in range(rng.choice([1, 1, 2, 3]))]
    want, died = s.start_commands(), False
    for i in play:
        bad, steps = files[order[i]]
        if bad:
            died = True
        for st in steps if not bad else []:
            if st is None or st == "dies":
                died = True
                break
            want += st
        if died:
            break
    menus = not died and rng.random() < .3
    argv = [] if menus else [rng.choice(["-s", "--scenario"])] + [str(i) for i in play]
    if s.coverage:
        argv.insert(0, rng.choice(["-c", "--coverage"]))
        if not died:
            want.append(coverage_event(s))
    if rng.random() < .2:
        argv.insert(0, "-v")
    ctx.log += [repr(s.conf), repr(s.scripts), repr(s.gathered), repr([(c.name, c.inc, c.values) for c in s.crits]),
                repr({n: open(os.path.join(s.sdir, n)).read() for n in names}), repr(argv), repr(play)]
    r = Run(s, argv)
    try:
        if menus:
            for i in play:
                m, t = r.menu()
                if m != order + ["Quit"]:
                    raise Mismatch("simulator", "menu", "offers %s, expected %s" % (m, order + ["Quit"]))
                while rng.random() < .2:
                    r.choose(rng.choice(["x", "-1", "99", str(len(order) + 1), "", "1.5"]))
                    m, t = r.menu()
                    if m is None:
                        raise Mismatch("simulator", "menu", "a wrong choice ends the menu: %s" % t[-300:])
                    ctx.note("wrong choices")
                r.choose(i)
            r.menu()
            r.choose(len(order))
        rc = r.end()
        got = record(s, ("platform ends",))
    finally:
        if r.p.poll() is None:
            r.kill()
    if (rc == 0) == died:
        raise Mismatch("simulator", "status", "status %s, expected %s: %s" % (rc, "an error" if died else "0", r.errs[-1500:]))
    compare(ctx, s, want, got, r, rc, died)
    ctx.note("scenarios failing" if died else "scenarios played", len(play))

# ---------------------------------------------------------------- interactive mode
def interactive(ctx, rng, case):
    ctx.op = "interactive"
    d = os.path.join(ctx.scratch, "sim")
    s = Setup(ctx, rng, d)
    want = s.start_commands()
    state = {c.name: {NOVALUE} if c.inc else NOVALUE for c in s.crits}
    argv = ["--interactive"]
    if s.coverage:
        argv.append("-c")
    ctx.log += [repr(s.conf), repr(s.scripts), repr([(c.name, c.inc, c.values) for c in s.crits])]
    r = Run(s, argv)
    def expect(m, t, w):
        if m is None or (m if isinstance(w, list) else set(m)) != w or len(m) != len(w):
            raise Mismatch("simulator", "menu", "offers %s, expected %s; %s" % (m, w, t[-500:] if m is None else ""))
    def pick(i):
        ctx.log.append("choose %s" % i)
        r.choose(i)
    try:
        top = ["Edit Vector", "Apply Configuration", "Launch Script", "Quit"]
        for _ in range(rng.choice([2, 4, 8])):
            m, t = r.menu()
            expect(m, t, top)
            k = rng.random()
            if k < .1:
                pick(rng.choice(["x", "-1", "99", "4", ""]))
                ctx.note("wrong choices")
            elif k < .55:
                pick(0)
                for _ in range(rng.randint(0, 2)):
                    m, t = r.menu()
                    expect(m, t, ["Edit " + c.name for c in s.crits] + ["Go Back"])
                    i = rng.randrange(len(s.crits))
                    c = s.crits[i]
                    pick(i)
                    if c.inc:
                        opts = ["Set " + v for v in c.values if v not in state[c.name]] + ["Unset " + v for v in state[c.name]]
                    else:
                        opts = ["Set " + v for v in c.values if v != state[c.name]] + ["Set Default"]
                    left = set(opts)
                    for _ in range(rng.randint(0, 3)):
                        m, t = r.menu()
                        expect(m, t, set(opts) | {"Go Back"})
                        if m[-1] != "Go Back":
                            raise Mismatch("simulator", "menu", "%s" % m)
                        ok = sorted(o for o in left if not o.startswith("Unset ") or o[6:] in state[c.name])
                        if not ok:
                            break
                        o = rng.choice(ok)
                        pick(m.index(o))
                        if o == "Set Default":
                            state[c.name] = NOVALUE
                        elif o.startswith("Set "):
                            v = o[4:]
                            state[c.name] = state[c.name] - {NOVALUE} | {v} if c.inc else v
                        else:
                            state[c.name] = state[c.name] - {o[6:]} or {NOVALUE}
                        ctx.note("values edited")
                    else:
                        m, t = r.menu()
                        expect(m, t, set(opts) | {"Go Back"})
                    pick(len(m) - 1)
                m, t = r.menu()
                expect(m, t, ["Edit " + c.name for c in s.crits] + ["Go Back"])
                pick(len(m) - 1)
            elif k < .85:
                pick(1)
                want += s.vector({c.name: " ".join(sorted(state[c.name])) if c.inc else state[c.name] for c in s.crits})
            else:
                pick(2)
                ns = list(s.scripts)
                for _ in range(rng.randint(0, 2)):
                    m, t = r.menu()
                    expect(m, t, ["Execute " + n for n in ns] + ["Go Back"])
                    if ns:
                        i = rng.randrange(len(ns))
                        pick(i)
                        want.append(("script", ns[i]))
                    else:
                        break
                else:
                    m, t = r.menu()
                    expect(m, t, ["Execute " + n for n in ns] + ["Go Back"])
                pick(len(m) - 1)
        m, t = r.menu()
        expect(m, t, top)
        pick(3)
        rc = r.end()
        got = record(s, ("platform ends",))
    finally:
        if r.p.poll() is None:
            r.kill()
    if s.coverage:
        want.append(coverage_event(s))
    if rc:
        raise Mismatch("simulator", "status", "status %s: %s" % (rc, r.errs[-1500:]))
    compare(ctx, s, want, got, r, rc, False)
    ctx.note("interactive sessions")
