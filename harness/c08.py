"""C08: request histories generated by MCStore replayed on the real store."""
import os, random, shutil
import numpy as np
import storelib as sl

CFG = """CONSTANTS Meth = "%s"
 MaxLen = %d
 Profs <- %s
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS Held OneCalculation Overwritten Kept Emit
"""
ABS = {"TMM": "mat", "ideal": "mat", "RCWA": "mat", "RT_Fresnel": "mat", "RT_TMM": "rttmm", "rts": "rts"}
REF = {}


def history(t):
    import mat
    mat.quiet()
    meth, m = t["meth"], ABS[t["meth"]]
    base = t["dir"]
    os.makedirs(base)
    keep = os.getcwd(), os.environ["HOME"]
    out = []
    try:
        ref = REF.get(meth)
        if ref is None:
            ref = REF[meth] = sl.Ref(meth, os.path.join(t["tmp"], "ref_%s_%d" % (meth, os.getpid())))
        # the two locations: a folder, the current directory or the default one (HOME)
        locs, dirs = [], []
        for i, kind in enumerate(t["locs"]):
            d = os.path.join(base, "l%d" % i)
            if kind == "current":
                os.makedirs(d)
                os.chdir(d)
                locs.append("current"); dirs.append(d)
            elif kind == "default":
                os.makedirs(d)
                os.environ["HOME"] = d
                locs.append("default"); dirs.append(os.path.join(d, "RayFlare_results"))
            else:
                locs.append(d); dirs.append(d)
        projs = ("p1", "p2")
        places = {(i + 1, j + 1): os.path.join(dirs[i], projs[j]) for i in range(2) for j in range(2)}
        out.append(dict(op="start", error="", m=m, files=[]))
        old = {}
        done = []
        for n, r in enumerate(t["hist"]):
            e = dict(op="req", error="", m=m, meth=meth, r=r, hist=t["hist"], n=n, locs=t["locs"])
            np.random.seed((t["seed"] + n) % 2**31)
            random.seed(t["seed"] + n)
            li, pi = (2 if r["p"] == "loc" else 1), (2 if r["p"] == "proj" else 1)
            names = sl.NAMES[r["p"]]
            try:
                sl.process(meth, r, locs[li - 1], projs[pi - 1], names)
                e["files"], old2 = sl.snapshot(ref, places, old)
                e["rat"] = True
                if meth != "rts":
                    got = sl.rat(meth, r, locs[li - 1], projs[pi - 1], names)
                    # the same matrices in another store
                    q = os.path.join(base, "copy%d" % n)
                    os.makedirs(os.path.join(q, "zz"))
                    for (nm, side, part), f in sl.find(places[(li, pi)]).items():
                        if nm in names:
                            shutil.copy(f, os.path.join(q, "zz"))
                    e["rat"] = len(got) > 0 and sl.same(got, sl.rat(meth, r, q, "zz", names))
                old = old2
            except Exception as ex:
                import traceback
                e.update(error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-900:])
                out.append(e)
                break
            out.append(e)
    finally:
        os.chdir(keep[0])
        os.environ["HOME"] = keep[1]
        shutil.rmtree(base, ignore_errors=True)
    return out


def reread(t):
    """values returned when computing = values returned when reusing = values in the files"""
    import mat
    mat.quiet()
    fn, side, prof = t["fn"], t["side"], t["prof"]
    base = t["dir"]
    os.makedirs(base)
    e = dict(op="reread", error="", fn=fn, side=side, prof=prof, equal=False)
    try:
        from rayflare.transfer_matrix_method import TMM
        from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
        from rayflare.ray_tracing import RT
        from rayflare.rigorous_coupled_wave_analysis import RCWA
        from rayflare.matrix_formalism.ideal_cases import lambertian_matrix, mirror_matrix
        from rayflare.structure import RTgroup
        from rayflare.textures import regular_pyramids
        from rayflare.angles import make_angle_vector
        from solcore.state import State
        meth = {"RCWA": "RCWA"}.get(fn, "TMM")
        o = State(sl.options(meth, "p"))
        inc, bulk, trn = sl.media("TMM", 1)
        lay = sl.layers(1, 1, fn == "RCWA")
        pl = [1, 2] if prof else None
        av = make_angle_vector(o["n_theta_bins"], o["phi_symmetry"], o["c_azimuth"])

        def call(ow=False):
            np.random.seed(t["seed"])
            if fn == "TMM":
                return TMM(lay, inc, bulk, "s", o, base, coherent=True, coherency_list=None, prof_layers=pl, front_or_rear=side, save=True, overwrite=ow)
            if fn == "table":
                return make_TMM_lookuptable(lay, inc, bulk, "s", o, base, True, None, pl, [1, -1], ow)
            if fn == "RT":
                g = RTgroup(textures=[regular_pyramids()])
                return RT(g, inc, bulk, "s", o, base, 0, side, 0, None, only_incidence_angle=False, save=True, overwrite=ow)
            if fn == "RCWA":
                return RCWA(lay, ((500, 0), (0, 500)), 1, o, base, inc, bulk, only_incidence_angle=False, prof_layers=pl, front_or_rear=side, surf_name="s", save=True, overwrite=ow)
            if fn == "lambertian":
                return lambertian_matrix(av[2], av[0], "s", base, side, save=True, overwrite=ow)
            return mirror_matrix(av[2], av[0], av[1], "s", o, base, front_or_rear=side, save=True, overwrite=ow)
        a = call()
        fa = sl.flat([a] if hasattr(a, "data_vars") else list(a))
        fs = {k: sl.content(f, k[2]) for k, f in sl.find(base).items()}
        b = call()
        fb = sl.flat([b] if hasattr(b, "data_vars") else list(b))
        e["equal"] = len(fa) > 0 and sl.same(fa, fb)
        if fn != "table":
            e["equal"] = bool(e["equal"] and sl.same(sl.flat(a[0]), sl.flat(fs[("s", side, "RT")])) and sl.same(sl.flat(a[1]), sl.flat(fs[("s", side, "A")])))
    except Exception as ex:
        import traceback
        e.update(error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-900:])
    shutil.rmtree(base, ignore_errors=True)
    return [e]


def pick(hists, n, rng):
    """histories chosen greedily so that every pair (situation of a key before, request) occurs"""
    rng.shuffle(hists)
    if n >= len(hists):
        return hists
    seen, out, rest = set(), [], []
    for h in hists:
        f = set()
        for i in range(1, len(h)):
            f.add(tuple((x["p"], x["v"], x["prof"], x["ow"]) for x in h[max(0, i - 1):i + 1]) + (i,))
            f.add((i,) + tuple((x["p"] == h[i]["p"], x["v"], x["prof"], x["ow"]) for x in h[:i + 1]))
        if f - seen:
            seen |= f
            out.append(h)
        else:
            rest.append(h)
    return (out + rest)[:n]


def run(ctx):
    rng = random.Random(ctx.seed * 41 + 8)
    k = 8 if ctx.thorough else 1
    plan = [("TMM", "ProfBoth", 3, 120 * k), ("RT_TMM", "ProfBoth", 3, 32 * k), ("rts", "ProfBoth", 3, 70 * k), ("ideal", "ProfNo", 3, 40 * k),
            ("RT_Fresnel", "ProfNo", 3, 24 * k), ("RCWA", "ProfBoth", 2, 24 * k)]
    tasks, cache = [], {}
    L = [("path", "path"), ("current", "path"), ("path", "default"), ("default", "current")]
    for meth, pr, ln, n in plan:
        key = (ABS[meth], pr, ln)
        if key not in cache:
            cache[key] = ctx.generate("MCStore", CFG % (ABS[meth], ln, pr, "TRUE"), workers=ctx.ncpu)
        hs = [h for h in cache[key] if meth not in ("ideal", "RT_Fresnel", "RT_TMM") or all(r["p"] != "swap" for r in h)]
        for h in pick(hs, n, rng):
            tasks.append(dict(meth=meth, hist=h, seed=rng.randrange(10**9), locs=rng.choice(L), tmp=ctx.tmp, dir=os.path.join(ctx.tmp, "h%d" % len(tasks))))
    ctx.model("MCStore", CFG % ("rttmm", 3 if not ctx.thorough else 4, "ProfBoth", "FALSE"))
    # references are made once in the parent
    for meth, *_ in plan:
        try:
            REF[meth] = sl.Ref(meth, os.path.join(ctx.tmp, "ref_" + meth))
        except Exception as ex:
            ctx.notes.setdefault("reference_failures", []).append("%s %r" % (meth, ex))
    res = ctx.pmap(history, tasks, timeout=200)
    groups = [r if isinstance(r, list) else [dict(op="start", error=r["error"], hist=t["hist"], meth=t["meth"])] for t, r in zip(tasks, res)]
    rr = []
    for fn, sides, profs in (("TMM", ("front", "rear"), (False, True)), ("table", ("front",), (False, True)), ("RT", ("front", "rear"), (False,)),
                             ("RCWA", ("front", "rear"), (False, True)), ("lambertian", ("front",), (False,)), ("mirror", ("front",), (False,))):
        for s in sides:
            for p in profs:
                rr.append(dict(fn=fn, side=s, prof=p, seed=rng.randrange(2**31), dir=os.path.join(ctx.tmp, "r%d" % len(rr))))
    res = ctx.pmap(reread, rr, timeout=200)
    groups += [r if isinstance(r, list) else [dict(op="reread", error=r["error"], fn=t["fn"])] for t, r in zip(rr, res)]
    ctx.notes["histories"] = len(tasks)
    ctx.exhaustive = False
    ctx.validate("StoreTrace", [e for g in groups for e in g], groups=groups)
