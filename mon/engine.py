"""Model-based histories as workloads."""
import os, shutil, random
from .world import World, Mismatch
from .structgen import Gen
from .host import Died

ALL = ["setcrit", "apply", "tuning", "autosync", "sync", "space", "get", "set", "hset", "hget", "setbytes", "getbytes", "getxml",
       "setxml", "xmltrip", "createDomain", "deleteDomain", "deleteAllDomains", "renameDomain", "seqaware", "createConf", "deleteConf",
       "renameConf", "saveConf", "restoreConf", "addElem", "removeElem", "split", "setElemSeq", "setRule", "clearRule", "getc", "setc",
       "fault", "query", "domtrip", "domone", "badimport", "partimport", "browse", "cmdargs", "badmode"]

def weights(base=1, **over):
    w = {k: base for k in ALL}
    w["deleteAllDomains"] = .3 * base
    w.update(over)
    return w

def history(ctx, rng, case, nops=60, prof=None):
    prof = dict(prof or {})
    prof.setdefault("weights", weights())
    mixes = prof.pop("mixes", None)
    if mixes:
        prof.update(rng.choice(mixes))
    h = ctx.host()
    d = os.path.join(ctx.scratch, "w")
    shutil.rmtree(d, ignore_errors=True)
    w = World(h, rng, d, ctx.out, prof, 1, ctx.note)
    w.log = ctx.log
    try:
        w.run(rng.randint(nops // 3, nops))
    finally:
        ctx.op = w.op
        if ctx._host is not None and ctx._host.p.poll() is None:
            h.call("del", 1)

def commands_vs_api(ctx, rng, case, nops=60, prof=None):
    """A history through the commands; what the calls answer for the same history decides whose fault a difference is."""
    seed = rng.random()
    prof = dict(prof or {}, route="cmd")
    try:
        history(ctx, random.Random(seed), case, nops, prof)
        return
    except Mismatch as e:
        first = e
    log = list(ctx.log)
    ctx.log.clear()
    try:
        history(ctx, random.Random(seed), case, nops, dict(prof, route="api"))
    except Mismatch as e:
        ctx.log[:] = log
        if e.tag.split(":")[0] not in ("query", "browse", "cmdargs", "badmode") and e.tag.split(":")[0] == first.tag.split(":")[0]:
            raise Mismatch("both", first.tag.replace(":", "-"), first.detail)
    ctx.log[:] = log
    raise first

def interleaved(ctx, rng, case, nops=60, prof=None, n=3):
    """Several instances in one process, driven alternately; each must behave as it does alone."""
    prof = dict(prof or {})
    k = rng.randint(2, n)
    seeds = [rng.random() for _ in range(k)]
    h = ctx.host()
    ws, gens = [], []
    ctx.op = "interleaved"
    bad = None
    def steps(w, r, lo):
        w.setup()
        w.observe(True)
        yield
        names = [x for x, v in w.prof["weights"].items() if v > 0]
        vs = [w.prof["weights"][x] for x in names]
        for _ in range(r.randint(lo // 2, lo)):
            op = r.choices(names, vs)[0]
            from .world import NEEDS_TUNING, EDITS
            if not w.tuning and op in NEEDS_TUNING and r.random() < .6:
                op = "tuning"
            w.step(op)
            w.note("operations")
            w.observe(op in EDITS or r.random() < .05)
            yield
        w.op = "final"
        w.observe(True)
    for i in range(k):
        r = random.Random(seeds[i])
        d = os.path.join(ctx.scratch, "i%d" % i)
        shutil.rmtree(d, ignore_errors=True)
        w = World(h, r, d, ctx.out, dict(prof, weights=prof.get("weights") or weights(),
                                          gen=dict(prof.get("gen", {}))), i + 1, ctx.note)
        w.log = ctx.log
        w.op = "setup"
        ws.append(w)
        gens.append(steps(w, r, nops))
    live = list(range(k))
    order = []
    try:
        while live:
            i = rng.choice(live)
            order.append(i)
            ctx.log.append("== instance %d" % (i + 1))
            ctx.op = "i:" + ws[i].op
            try:
                other = None
                if rng.random() < .25:
                    others = [j for j in live if j != i and ws[j].__dict__.get("opath") is not None]
                    if others:
                        other = rng.choice(others)
                        h.call("logs", other + 1)
                next(gens[i])
                ctx.note("interleaved steps")
                if other is not None:
                    ok, lines = h.call("logs", other + 1)
                    if lines:
                        raise Mismatch("interleaved", "logs", "instance %d logged %r while instance %d ran" % (other + 1, lines[:3], i + 1))
                    ctx.note("silent neighbours checked")
            except StopIteration:
                live.remove(i)
                if rng.random() < .5:
                    h.call("del", i + 1)      # the others go on without it
                    ctx.note("instances destroyed while others run")
                    if rng.random() < .4 and len(ws) < 5:
                        j = len(ws)
                        seeds.append(rng.random())
                        r = random.Random(seeds[j])
                        d = os.path.join(ctx.scratch, "i%d" % j)
                        shutil.rmtree(d, ignore_errors=True)
                        w = World(h, r, d, ctx.out, dict(prof, weights=prof.get("weights") or weights()), j + 1, ctx.note)
                        w.log = ctx.log
                        ws.append(w)
                        gens.append(steps(w, r, nops // 2))
                        live.append(j)
            except Mismatch as e:
                bad = (i, e)
                break
        ctx.note("instances", len(ws))
    finally:
        if ctx._host is not None and h.p.poll() is None:
            for i in range(len(ws)):
                h.call("del", i + 1)
    if bad and bad[1].tag == "interleaved:logs":
        raise bad[1]
    if bad:
        i, e = bad
        log = list(ctx.log)
        ctx.log.clear()
        r = random.Random(seeds[i])
        d = os.path.join(ctx.scratch, "alone")
        shutil.rmtree(d, ignore_errors=True)
        w = World(h, r, d, ctx.out, dict(prof, weights=prof.get("weights") or weights(), gen=dict(prof.get("gen", {}))), i + 1, ctx.note)
        w.log = ctx.log
        try:
            for _ in steps(w, r, nops if i < k else nops // 2):
                pass
        except Mismatch as f:
            ctx.log[:] = log
            raise Mismatch("both", f.tag.replace(":", "-"), f.detail)
        finally:
            if h.p.poll() is None:
                h.call("del", i + 1)
        ctx.log[:] = log
        raise Mismatch("interleaved", e.tag.replace(":", "-"), "instance %d: %s (the same history alone is right)" % (i + 1, e.detail))
