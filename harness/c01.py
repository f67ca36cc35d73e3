"""C01: the ledger of a ray-tracing calculation closes, for every class of structure of MCRtShapes."""
import math, os, random, shutil
import numpy as np
import rtlib
from vlib import fx, fxl

CFG = """CONSTANTS N = %d
 Tr <- TrA
 Thr = 200000
 MaxRays = %d
 MaxHits = %d
INIT Init
NEXT Next
INVARIANTS FatesOK Closes Exact InitialLess OnlyBulk
"""


def one(shape, seed, d):
    rng = random.Random(seed)
    st = rtlib.Stack(shape, rng)
    wls = [rng.uniform(500e-9, 700e-9) for _ in range(rng.choice([1, 2]))]
    nx, ny = rng.choice([(3, 3), (5, 4), (2, 7), (1, 6)])
    o = dict(pol=rng.choice("spu"), theta_in=rng.choice([0.0, rng.uniform(.02, 1.3), rng.uniform(.02, 1.3)]), phi_in=rng.uniform(0, 6.28),
             nx=nx, ny=ny, n_rays=nx * ny * rng.choice([1, 2, 3]) - rng.choice([0, 0, 1]), random_ray_position=rng.random() < .5, randomize_surface=rng.random() < .3,
             I_thresh=rng.choice([1e-3, .05, .2, .5]))
    m0, d0 = 0, 1
    if rng.random() < .25:
        m0, d0 = rng.choice([(m, x) for m in range(st.N + 1) for x in (1, -1) if (m, x) not in ((0, -1), (st.N, 1))])
        if m0 not in (0, st.N):
            o["theta_in"] = rng.uniform(0, .15)
        o.update(initial_material=m0, initial_direction=d0)
    periodic = True
    if rng.random() < .12 and st.N == 1:
        o["periodic"], periodic = 0, False
    np.random.seed(seed % 2**32)
    random.seed(seed)
    op = rtlib.options(wls, **o)
    s = st.make(op, d)
    r = s.calculate(op)
    n = -(-o["n_rays"] // (nx * ny)) * nx * ny
    N = st.N
    nl = [0 if l is None else len(l) for l in st.lay]
    out = []
    for w in range(len(wls)):
        rays = []
        th = np.real(r["thetas"][w])
        for i in range(len(th)):
            stt = "gone" if np.isnan(th[i]) else "R" if th[i] <= math.pi / 2 else "T"
            rays.append([stt, int(r["n_passes"][w][i]), int(r["n_interactions"][w][i])])
        Ai = [fxl(r["A_per_interface"][j][w]) if st.tmm else [] for j in range(N)]
        raw = [np.atleast_1d(r["A_interfaces"][w][j]) if st.tmm else np.zeros(0) for j in range(N)]
        out.append(dict(error="", N=N, m0=m0, d0=d0, n=n, thr=fx(o["I_thresh"]), R=fx(r["R"][w]), T=fx(r["T"][w]), R0=fx(r["R0"][w]), bulk=fxl(r["A_per_layer"][w]),
                        surf=Ai, nl=nl, stot=[fx(float(np.sum(x))) for x in raw], rays=rays, clear=st.clear, lossless=st.lossless, best=fx(max([math.exp(-4 * math.pi * k / wls[w] * x) for k, x in zip(st.k[1:-1], st.w)] or [1.0])), periodic=periodic, shape=shape, seed=seed, wl=w))
    return out


def task(t):
    import mat
    mat.quiet()
    out = []
    for i, (shape, seed) in enumerate(t["items"]):
        d = os.path.join(t["dir"], str(i))
        os.makedirs(d, exist_ok=True)
        try:
            out += one(shape, seed, d)
        except Exception as ex:
            import traceback
            out.append(dict(error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-800:], shape=shape, seed=seed))
        shutil.rmtree(d, ignore_errors=True)
    return out


def run(ctx):
    rng = random.Random(ctx.seed * 1000 + 1)
    ctx.model("MCLedger", CFG % (3, 2, 6))
    ctx.model("MCLedger", CFG % ((4, 2, 9) if ctx.thorough else (2, 3, 5)), timeout=800)
    one_, two, three = [], [], []
    for s in rtlib.shapes(ctx, 2, "pudvrh", "FLN", "two"):
        (one_ if len(s["surf"]) == 1 else two).append(s)
    three = rtlib.shapes(ctx, 3, "pu", "FL", "tw")
    three = [s for s in three if len(s["surf"]) == 3]
    for x in (two, three):
        rng.shuffle(x)
    k = 5 if ctx.thorough else 1
    items = [(s, rng.randrange(10**9)) for s in one_ * (3 * k) + two[:260 * k] + three[:60 * k]]
    tasks = [dict(items=items[i:i + 6], dir=ctx.scratch("t%d" % i)) for i in range(0, len(items), 6)]
    events = []
    for t, r in zip(tasks, ctx.pmap(task, tasks, timeout=300)):
        if isinstance(r, dict):
            r = [dict(error=r["error"], where=r.get("where", ""), items=t["items"])]
        events += r
    ctx.notes["structures"] = len(items)
    ctx.validate("LedgerTrace", events)
