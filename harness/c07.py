"""C07: equivalent azimuths. For the discretisations of the Channels specification: folding, launch channels of equivalent
azimuths, complete results for equivalent azimuths (crafted matrices, real planar matrices, and ray-traced matrices made only
for the incidence direction), and light from all azimuths against the average over azimuths."""
import math, random
import numpy as np
import matlib, c05, c06
from vlib import fx, fxl


def fold_event(d, rng):
    from rayflare.angles import fold_phi
    sym = 2 * math.pi / d["k"]
    az = []
    for b in (1, 2, 3, 4, 7, 8, 1000):
        for a in set([0, 1, b - 1, b // 2]):
            for p in [0, 1, 2, -1, -2, d["k"], -d["k"], 2 * d["k"], rng.randrange(-3 * d["k"], 3 * d["k"] + 1)]:
                az.append([a + p * b, b])
    phis = np.array([a / b * sym for a, b in az])
    f = np.asarray(fold_phi(phis, sym))
    one = [float(fold_phi(float(p), sym)) for p in phis[:8]]
    ev = dict(kind="fold", error="", d=d, az=az + az[:8], fold=fxl(f) + fxl(one))
    return [ev]


def flatres(res):
    RAT, per = res[0], res[1]
    a = [np.sum(np.asarray(x), axis=(0, 2)) for x in per["a"]]
    R, T, A = RAT["R"].data[0], RAT["T"].data[0], RAT["A_bulk"].data[0]
    return fxl(np.concatenate([R, T, A] + a)), fxl(R + T + A + a[0] + a[1])


def equiv_events(t, rng):
    """crafted random systems"""
    import mat
    from rayflare.matrix_formalism import calculate_RAT
    d, loc = t["d"], t["dir"]
    N = matlib.n_in(d)
    wls = np.array([500e-9, 700e-9])
    surf = [[c05.random_surface(rng, N, 1, "full") for _ in wls] for _ in range(3)]
    st = lambda i, a, b: np.stack([np.vstack([s[a], s[b]]) for s in surf[i]])
    sa = lambda i: np.stack([s[2] for s in surf[i]])
    matlib.save(loc, "front", "front", st(0, 0, 1), sa(0))
    matlib.save(loc, "front", "rear", st(1, 1, 0), sa(1))
    matlib.save(loc, "back", "front", st(2, 0, 1), sa(2))
    SC = matlib.structure(1e-5, mat.Mat(3.5, 0.002))
    sym = 2 * math.pi / d["k"]
    n = d["n"]
    tb = rng.randrange(n)
    e0, e1 = [(x * math.pi / 2 / n if d["lin"] else math.asin(x / n)) for x in (tb, tb + 1)]
    theta = e0 + (e1 - e0) * rng.choice([0.2, 0.5, 0.8])
    def calc(phi):
        return flatres(calculate_RAT(SC, matlib.options(d, wavelength=wls, theta_in=theta, phi_in=phi, I_thresh=1e-6), loc))
    evs = []
    for a, b in rng.sample(c06.AZ, 3) + [(0, 1)]:
        r = [calc((a / b + p) * sym) for p in [0, 1, -1, 2, d["k"], 2 * d["k"] + 1]]
        evs.append(dict(kind="equiv", error="", d=d, az=[[a, b]], res=[x[0] for x in r], tot=[x[1] for x in r], tol=5, left=30))
    m = matlib.nphi(d, tb)
    r = [calc((j + rng.choice([0.1, 0.5, 0.9])) / m * sym)[0] for j in range(m)]
    evs.append(dict(kind="avg", error="", d=d, all=calc("all")[0], res=r, tol=12))
    return evs


def rt_events(t, rng):
    """matrices ray-traced only for the incidence direction must be populated in the channel the light is launched into"""
    import mat
    from rayflare.matrix_formalism import calculate_RAT, process_structure
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.textures import planar_surface, regular_pyramids
    from solcore.structure import Layer
    d = t["d"]
    wls = np.array([600e-9])
    sym = 2 * math.pi / d["k"]
    evs = []
    for kind in ("RT_Fresnel", "RT_TMM"):
        res, tot = [], []
        a, b = rng.choice(c06.AZ[:8])
        for p in [0, 1, -1, d["k"] + 1]:
            loc = t["ctxdir"] + "/%s%d" % (kind, p)
            import os
            os.makedirs(loc)
            # without texture, with the indices matched: everything is transmitted (no randomness)
            m0 = mat.Mat(1.0, 0.0)
            front = Interface(kind, texture=planar_surface(), layers=[Layer(5e-8, m0)] if kind == "RT_TMM" else [], name="front")
            sc = Structure([front, BulkLayer(1e-5, mat.Mat(1.0, 0.0006), name="bulk"), Interface("Mirror", layers=[], name="back")])
            sc.incidence, sc.transmission = m0, m0
            o = matlib.options(d, wavelength=wls, theta_in=t["theta"], phi_in=(a / b + p) * sym, only_incidence_angle=True, nx=2, ny=2, n_rays=40,
                               I_thresh=1e-6, random_ray_position=False, avoid_edges=False, randomize_surface=False, random_ray_angles=False,
                               lookuptable_angles=20)
            process_structure(sc, o, loc, overwrite=True)
            r = flatres(calculate_RAT(sc, o, loc))
            res.append(r[0])
            tot.append(r[1])
        evs.append(dict(kind="equiv", error="", d=d, az=[[a, b]], res=res, tot=tot, tol=2000, left=2000, method=kind))
    return evs


def task(t):
    import mat
    mat.quiet()
    rng = random.Random(t["seed"])
    try:
        if t["what"] == "fold":
            return fold_event(t["d"], rng)
        if t["what"] == "launch":
            return c06.launch_events(t["dir"], t["d"], rng, np.array([400e-9, 700e-9]), t["full"])
        if t["what"] == "equiv":
            return equiv_events(t, rng)
        return rt_events(t, rng)
    except Exception as ex:
        import traceback
        return [dict(kind=t["what"], d=t["d"], error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-900:])]


def run(ctx):
    rng = random.Random(ctx.seed * 19 + 7)
    ds = ctx.generate("MCChannels", matlib.CFG_CH % (4 if not ctx.thorough else 6, "F5", "1, 2, 3, 4, 6, 8", "TRUE"))
    rng.shuffle(ds)
    tasks = []
    for i, d in enumerate(ds):
        if d["cp"] == 1 and d["cq"] == 1 and not d["lin"]:
            tasks.append(dict(what="fold", d=d, seed=rng.randrange(10**9)))
        if ctx.thorough or i % 8 == 0:
            tasks.append(dict(what="launch", d=d, seed=rng.randrange(10**9), dir=ctx.scratch("l"), full=matlib.n_in(d) < 6))
        if ctx.thorough or i % 3 == 1:
            tasks.append(dict(what="equiv", d=d, seed=rng.randrange(10**9), dir=ctx.scratch("e")))
        if i % 24 == 5 or (ctx.thorough and i % 8 == 5):
            tasks.append(dict(what="rt", d=d, seed=rng.randrange(10**9), ctxdir=ctx.scratch("r"), theta=rng.choice([0.0, 0.3, 1.0])))
    res = ctx.pmap(task, tasks, timeout=200)
    events = []
    for t, r in zip(tasks, res):
        if isinstance(r, dict):
            r = [dict(kind=t["what"], d=t["d"], error=r["error"])]
        events += r
    ctx.notes["events"] = {k: sum(e["kind"] == k for e in events) for k in set(e["kind"] for e in events)}
    ctx.validate("ChannelTrace", events)
