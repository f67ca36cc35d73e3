"""C20: histories of requests for several wavelengths generated by MCWave, calculated with the real code one after the other
and by parallel workers, against results for each wavelength alone."""
import random, os
import entrylib as E

CFG = """CONSTANTS W = {%s}
 MaxLen = %d
 MaxReq = %d
 Workers = %d
 Mode = "%s"
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS AsAlone Bounded Emit
"""
PAR = ["rcwa", "rcwaprof", "mxrcwa", "rt", "rtprof", "rttmm", "mxrtf", "mxrttmm"]
RAYS = 96


def group(t):
    e = t["entry"]
    W = E.World(t["seed"], rays=RAYS, coarse=e in E.RAN)
    n = [0]
    out = [dict(op="start", error="")]

    def loc():
        n[0] += 1
        d = os.path.join(t["dir"], "w%d_%d" % (t["n"], n[0]))
        os.makedirs(d, exist_ok=True)
        return d
    sp = W.special(e)
    for w in W.wl:
        r = W.run(e, W.blank("default", dict(sp, wavelength=W.lam([w]))), loc())
        out.append(dict(op="alone", error="", entry=e, w=w, res=r["res"][0], nres=len(r["res"])))
    for h in t["hists"]:
        W.objs = {}
        o = W.blank("default", sp)
        for k, x in enumerate(h):
            p = x["par"] and t["par"]
            ev = dict(op="calc", error="", entry=e, req=x["req"], par=p, seed=t["seed"], asked=[round(W.wl[i] * 1e12) for i in x["req"]])
            # (a statistical comparison; in the matrix method the incident channel gets a part of the rays)
            ev["rays"] = 0 if e in E.DET else RAYS // 3 if e.startswith("mx") else RAYS
            try:
                o["wavelength"] = W.lam(x["req"])
                o["parallel"], o["n_jobs"] = p, 2 + k % 2
                W.seed += 1 if e in E.RAN else 0
                ev.update(W.run(e, o, loc(), keep=True))
            except Exception as ex:
                import traceback
                ev.update(error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-700:], hist=h, seed=t["seed"])
            out.append(ev)
    return out


def task(t):
    import mat, warnings
    mat.quiet()
    warnings.simplefilter("ignore")
    out = [group(x) for x in t]
    if any(x["par"] for x in t):
        from joblib.externals.loky import get_reusable_executor
        get_reusable_executor().shutdown(wait=True, kill_workers=True)
    return out


def run(ctx):
    rng = random.Random(ctx.seed * 100 + 20)
    ctx.model("MCWave", CFG % ("1, 2, 3", 3, 2, 2, "ok", "FALSE"))
    if ctx.thorough:
        ctx.model("MCWave", CFG % ("1, 2, 3, 4", 4, 1, 3, "ok", "FALSE"), timeout=600)
        ctx.model("MCWave", CFG % ("1, 2, 3", 2, 3, 2, "ok", "FALSE"), timeout=600)
    for m in ("append", "sorted", "last", "memory"):
        ctx.model("MCWave", CFG % ("1, 2, 3", 3, 2, 2, m, "FALSE"), expect_violation="AsAlone")
    one = [h for h in ctx.generate("MCWave", CFG % ("1, 2, 3, 4", 4, 1, 1, "ok", "TRUE"), workers=1) if len(h) == 1]
    two = [h for h in ctx.generate("MCWave", CFG % ("1, 2, 3, 4", 2, 2, 1, "ok", "TRUE"), workers=1) if len(h) == 2]
    one.sort(key=repr)
    two.sort(key=repr)
    seq = lambda h: not any(x["par"] for x in h)
    rng.shuffle(one)
    rng.shuffle(two)
    long1 = [h for h in one if len(h[0]["req"]) > 1]
    plan = dict(tmm=60, tmmprof=60, inc=40, incprof=30, nbr=30, gen=40, rcwa=24, rcwaprof=16, fields=10, lookup=20, mxtmm=12, mxrcwa=6, mxmirror=10, mxlamb=8,
                genrcwa=10, genmx=10, mxrtf=4, mxrttmm=4, rt=8, rtprof=8, rttmm=4)
    k = 8 if ctx.thorough else 1
    tasks = []
    for r in range(k):
        for e, c in plan.items():
            l = [h for h in long1 if seq(h)][:64] if e in E.DET else []
            rng.shuffle(l)
            l2 = [h for h in two if seq(h)]
            hs = l[:c // 2] + rng.sample(l2, c // 2) if e in E.DET else rng.sample([h for h in long1 if seq(h) and len(h[0]["req"]) > 2], c // 2) + rng.sample(l2, c // 2)
            cut = 10 if e in ("tmm", "tmmprof", "inc", "incprof", "nbr", "gen") else 6 if e in E.DET else 2
            for i in range(0, len(hs), cut):
                tasks.append([dict(entry=e, seed=rng.randrange(10**8), hists=hs[i:i + cut], par=False)])
    par = []
    for r in range(k):
        for e in PAR:
            hs = [h for h in long1 if not seq(h) and len(h[0]["req"]) > 2]
            par.append(dict(entry=e, seed=rng.randrange(10**8), hists=rng.sample(hs, 2), par=True))
    for i, x in enumerate([y for t in tasks for y in t] + par):
        x.update(dir=ctx.scratch("wave"), n=i)
    tasks.sort(key=lambda t: t[0]["entry"] in E.DET)
    groups = []
    for r in ctx.pmap(task, tasks, timeout=400) + ctx.pmap(task, [par[i::4] for i in range(4)], timeout=600, nproc=4):
        groups += [[dict(op="calc", error=r["error"], where=r.get("where", ""))]] if isinstance(r, dict) else r
    ctx.notes["calculations"] = sum(e["op"] == "calc" for g in groups for e in g)
    ctx.notes["by parallel workers"] = sum(bool(e.get("par")) for g in groups for e in g)
    ctx.validate("WaveTrace", [e for g in groups for e in g], groups=groups)
