"""C09: requests of the Store model, ended at every file operation of the real code and repeated."""
import os, sys, json, random, shutil, subprocess, time

CFG = """CONSTANTS Meth = "%s"
 RemoveFirst = %s
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS Recovered NotMixed Emit
"""
ABS = {"TMM": "mat", "ideal": "mat", "RCWA": "mat", "RT_Fresnel": "mat", "RT_TMM": "rttmm", "rts": "rts"}


def drive(t):
    env = dict(os.environ, LD_PRELOAD=t["so"], PYTHONPATH=os.pathsep.join(sys.path))
    t0 = time.time()
    inp, outp = t["dir"] + ".json", t["dir"] + ".out"
    with open(inp, "w") as f:
        json.dump(t, f)
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "crashdriver.py"), inp, outp], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t["timeout"])
    shutil.rmtree(t["dir"], ignore_errors=True)
    if p.returncode != 0 or not os.path.exists(outp):
        raise RuntimeError("driver failed: " + p.stdout[-800:])
    r = json.load(open(outp))
    if os.environ.get("VERIF_DEBUG"):
        print(t["meth"], len(t["scenarios"]), sum(map(len, r)), round(time.time() - t0, 1), flush=True)
    return r


def run(ctx):
    rng = random.Random(ctx.seed * 7 + 9)
    so = os.path.join(ctx.tmp, "killat.so")
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(os.path.dirname(os.path.abspath(__file__)), "killat.c"), "-ldl"], check=True)
    sc = {m: ctx.generate("MCCrash", CFG % (m, "TRUE", "TRUE")) for m in ("mat", "rttmm", "rts")}
    for m in sc:
        ctx.model("MCCrash", CFG % (m, "TRUE", "FALSE"))
    ctx.model("MCCrash", CFG % ("rttmm", "FALSE", "FALSE"), expect_violation="NotMixed")
    # method: points per scenario, scenarios, scenarios per driver
    big = 10 ** 6
    plan = ({"TMM": (20, 32, 6), "rts": (16, 27, 9), "ideal": (16, 14, 7), "RCWA": (20, 4, 2), "RT_Fresnel": (16, 4, 4), "RT_TMM": (10, 4, 1)} if not ctx.thorough else
            {"TMM": (big, 40, 4), "rts": (big, 40, 10), "ideal": (big, 20, 8), "RCWA": (big, 40, 6), "RT_Fresnel": (big, 20, 6), "RT_TMM": (60, 40, 2)})
    tasks = []
    for meth, (points, n, per) in plan.items():
        noprof = meth in ("ideal", "RT_Fresnel")
        l = sorted([s for s in sc[ABS[meth]] if not (noprof and (s["req"]["prof"] or s["pre"]["prof"]))], key=lambda s: json.dumps(s, sort_keys=True))
        # the ones with most at stake first: changed inputs over existing results
        rng.shuffle(l)
        l.sort(key=lambda s: (not s["first"], s["req"]["v"] == 1 and s["req"]["ow"], not s["req"]["ow"]) if n < 40 else 0)
        l = l[:n]
        for again in ((False, True) if ctx.thorough else (False,)):
            for i in range(0, len(l), per):
                tasks.append(dict(meth=meth, scenarios=l[i:i + per], points=points, again=again, seed=rng.randrange(10 ** 9), so=so,
                                  dir=os.path.join(ctx.tmp, "d%d" % len(tasks)), timeout=700 if not ctx.thorough else 14000))
    tasks.sort(key=lambda t: -len(t["scenarios"]) * min(t["points"], 200) * {"RT_TMM": 8, "RCWA": 1.5}.get(t["meth"], 1))
    res = ctx.pmap(drive, tasks, timeout=720 if not ctx.thorough else 14400)
    groups = []
    for t, r in zip(tasks, res):
        if isinstance(r, dict):
            groups.append([dict(op="whole", error=r["error"], meth=t["meth"], where=r.get("where", ""))])
        else:
            groups += r
    ev = [e for g in groups for e in g]
    ctx.notes["interruptions"] = sum(e["op"] == "crash" for e in ev)
    ctx.notes["repetitions which failed with an error"] = sum(e.get("outcome") == "error" for e in ev)
    ctx.notes["file operations"] = {k: sum(e.get("kind") == k for e in ev) for k in ("open", "write", "unlink", "rename", "mkdir", "truncate")}
    ctx.exhaustive = ctx.thorough
    ctx.validate("CrashTrace", ev, groups=groups)
