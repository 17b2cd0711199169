"""Runs a property's workloads in parallel shards against the instrumented build and reports."""
import os, sys, time, json, random, fnmatch, hashlib, shutil, tempfile, traceback, collections, multiprocessing as mp
from .host import Host, Died, Hang, HarnessError
from .world import Mismatch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Ctx:
    """What a workload sees of its shard."""
    def __init__(self, prop, out, scratch, tier):
        self.outs = out if isinstance(out, dict) else {"asan": out}
        self.variant = next(iter(self.outs))
        self.prop, self.out, self.scratch, self.tier = prop, self.outs[self.variant], scratch, tier
        self.notes = collections.Counter()
        self.case_notes = collections.Counter()
        self.log = []
        self._host = None
        self._used = 0
        self.known = []
        self.probe = None
        self.ends = []

    def at_end(self, f):
        self.ends.append(f)

    def note(self, k, n=1):
        self.case_notes[k] += n

    def use(self, variant):
        """Selects the instrumented build the next case runs on."""
        variant = variant or next(iter(self.outs))
        if variant != self.variant:
            self.drop(True)
            self.variant, self.out = variant, self.outs[variant]

    def host(self):
        if self._host is not None and self._used >= 60:
            self.drop(True)
        if self._host is None:
            self._host = Host(os.path.join(self.out, "pfhost"), self.scratch)
            self._used = 0
        self._used += 1
        return self._host

    def drop(self, orderly):
        h, self._host = self._host, None
        if h is None:
            return
        if orderly:
            h.close()
        else:
            h.cleanup()

def tag_of_death(e, op):
    r = e.report
    if "LeakSanitizer" in r and "AddressSanitizer:" not in r:
        return "leak"
    return "died:" + (op or "?")

def match(tag, pats):
    return any(fnmatch.fnmatchcase(tag, p) for p in pats)

def run_case(ctx, spec, seed, prop, wi, case):
    """-> None or (tag, detail)"""
    w = spec["work"][wi]
    rng = random.Random("%s/%s/%s/%s" % (seed, prop, w["name"], case))
    ctx.case_notes = collections.Counter()
    ctx.log = []
    ctx.op = w["name"]
    try:
        ctx.use(w.get("variant"))
        w["fn"](ctx, rng, case, **w.get("args", {}))
        return None
    except Mismatch as e:
        return (e.tag, e.detail)
    except Died as e:
        ctx.drop(False)
        return (tag_of_death(e, ctx.op), "the instrumented process ended with status %s\n%s" % (e.rc, e.report[:3500]))
    except Hang as e:
        ctx.drop(False)
        return ("hang:" + ctx.op, str(e))
    except HarnessError as e:
        ctx.drop(False)
        t = str(e)
        if t.startswith("EXCEPTION harness"):
            return ("harness", t)
        return ("died:" + ctx.op, "a C++ exception left the framework: " + t)

def worker(prop, spec, out, seed, tier, shard, nshards, counts, deadline, stop, q):
    scratch = tempfile.mkdtemp(prefix="pfmon.")
    ctx = Ctx(prop, out, scratch, tier)
    r = {"evaluations": 0, "fps": set(), "notes": collections.Counter(), "viol": [], "foreign": collections.Counter(),
         "errors": [], "samples": [], "known": collections.Counter(), "foreign_first": {}}
    try:
        jobs = [(wi, c) for wi, n in enumerate(counts) for c in range(shard, n, nshards)]
        # interleave workloads so that a shortened run still covers all of them
        var = [w.get("variant", "") for w in spec["work"]]
        jobs.sort(key=lambda j: (var[j[0]], j[1] / max(1, counts[j[0]]), j[0]))
        for wi, case in jobs:
            if stop.is_set() or time.time() > deadline:
                r["cut"] = True
                break
            try:
                v = run_case(ctx, spec, seed, prop, wi, case)
            except Exception:
                r["errors"].append("%s case %d: %s" % (spec["work"][wi]["name"], case, traceback.format_exc()[-1500:]))
                ctx.drop(False)
                if len(r["errors"]) > 3:
                    break
                continue
            r["evaluations"] += 1
            r["notes"].update(ctx.case_notes)
            hot = sum(ctx.case_notes[k] for k in spec["key"])
            if hot:
                fp = hashlib.sha1("\n".join(map(str, ctx.log)).encode("utf-8", "replace")).digest()[:8]
                r["fps"].add(fp)
                if len(r["samples"]) < 2 and len(ctx.log) < 2000:
                    r["samples"].append({"workload": spec["work"][wi]["name"], "case": case, "observed": dict(ctx.case_notes.most_common(6)),
                                         "log_tail": [str(x)[:160] for x in ctx.log[-6:]]})
            if v:
                tag, det = v
                if tag == "harness":
                    r["errors"].append(det)
                elif match(tag, spec["tags"]):
                    r["viol"].append({"workload": spec["work"][wi]["name"], "wi": wi, "case": case, "tag": tag, "detail": det[:4000],
                                      "log": [str(x)[:400] for x in ctx.log[-60:]]})
                    stop.set()
                    break
                else:
                    r["foreign"][tag] += 1
                    r["foreign_first"].setdefault(tag, "%s/%d: %s" % (spec["work"][wi]["name"], case, det[:300]))
        try:
            ctx.drop(True)
        except Died as e:
            tag = tag_of_death(e, "exit")
            if match(tag, spec["tags"]):
                r["viol"].append({"workload": "shard", "wi": -1, "case": shard, "tag": tag, "detail": e.report[:4000], "log": []})
            else:
                r["foreign"][tag] += 1
                r["foreign_first"].setdefault(tag, e.report[:300])
        except Hang as e:
            r["errors"].append("exit: " + str(e))
    except Exception:
        r["errors"].append(traceback.format_exc()[-2000:])
        ctx.drop(False)
    finally:
        for f in ctx.ends:
            f()
        shutil.rmtree(scratch, ignore_errors=True)
    q.put(r)

def shards():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 4
    return max(2, min(8, n))

def execute(prop, spec, out, seed, tier, scale, budget):
    counts = [max(1, int(w["n"] * (scale if not w.get("fixed") else 1))) for w in spec["work"]]
    n = shards()
    ctxm = mp.get_context("fork")
    stop, q = ctxm.Event(), ctxm.Queue()
    deadline = time.time() + budget
    ps = [ctxm.Process(target=worker, args=(prop, spec, out, seed, tier, i, n, counts, deadline, stop, q)) for i in range(n)]
    for p in ps:
        p.start()
    res = []
    hard = time.time() + budget + 200
    import queue
    while len(res) < n:
        try:
            res.append(q.get(timeout=2))
        except queue.Empty:
            if time.time() > hard or all(not p.is_alive() for p in ps):
                try:
                    while True:
                        res.append(q.get(timeout=1))
                except queue.Empty:
                    break
                break
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    tot = {"evaluations": 0, "fps": set(), "notes": collections.Counter(), "viol": [], "foreign": collections.Counter(),
           "foreign_first": {}, "errors": [], "samples": [], "cut": False, "lost": n - len(res)}
    for r in res:
        tot["evaluations"] += r["evaluations"]
        tot["fps"] |= r["fps"]
        tot["notes"].update(r["notes"])
        tot["viol"] += r["viol"]
        tot["foreign"].update(r["foreign"])
        for k, v in r["foreign_first"].items():
            tot["foreign_first"].setdefault(k, v)
        tot["errors"] += r["errors"]
        tot["samples"] += r["samples"]
        tot["cut"] = tot["cut"] or r.get("cut", False)
    return tot
