"""C13: depth profiles of multilayer stacks: every stack shape of MCShapes, layer subsets in any order."""
import random, itertools
import numpy as np
from vlib import fx, fxl
import tmmlib as tl


def one(shape, seed):
    from rayflare.transfer_matrix_method import tmm_structure
    rng = random.Random(seed)
    st = tl.Stack(shape, rng)
    L = len(st.ws)
    incoh = not st.coherent
    ds = rng.choice([10, 20]) if incoh else rng.choice([1, 1, 2])
    for j, c in enumerate(shape["ls"]):
        if c in "WD":
            st.par[j + 1] = st.par[j + 1][:4] + (rng.uniform(1500, 4000),)
        elif incoh:
            st.par[j + 1] = st.par[j + 1][:4] + (rng.uniform(150, 400),)
            if c == "m":
                st.par[j + 1] = (2, 0, 0.3, 0, 200.)
            n, a, k, b, d = st.par[j + 1]
            st.par[j + 1] = (n, a, min(k, .3), b, d)
        elif c in "dm":
            st.par[j + 1] = st.par[j + 1][:4] + (rng.uniform(12 * ds, 90 * ds),)
        elif c == "a":
            st.par[j + 1] = st.par[j + 1][:4] + (rng.uniform(20 * ds, 120 * ds),)
    st.ws = [p[4] for p in st.par[1:-1]]
    wls = [rng.uniform(400e-9, 1000e-9) for _ in range(rng.choice([1, 2, 2]))]
    th = tl.choose_angle(st, wls, rng)
    if th is None:
        return None
    pol = rng.choice("spu")
    o = tl.opts(wls, th, pol, st, st.coherent and rng.random() < .2 and False, depth_spacing=ds * 1e-9)
    layers = list(range(1, L + 1))
    sub = rng.choice([None, None] + [list(x) for r in range(1, L + 1) for x in itertools.permutations(layers, r)])
    mk = lambda: tmm_structure(st.layers(), st.mat(0), st.mat(len(st.cls) - 1))
    s = mk()
    if rng.random() < .5:
        r = s.calculate(o, profile=True, layers=sub)
    else:
        r = s.calculate_profile(o, layers=sub)
    full = mk().calculate(o, profile=True)
    none = mk().calculate(o)
    same = all(np.allclose(r[q], none[q], atol=1e-9) and np.allclose(full[q], none[q], atol=1e-9) for q in ("R", "T", "A", "A_per_layer"))
    z = np.arange(0, sum(st.ws), ds)
    edges = np.concatenate([[0], np.cumsum(st.ws)])
    pos = [z[(z >= edges[j]) & (z < edges[j + 1])] for j in range(L)]
    want = sub or layers
    P, F, C = np.asarray(r["profile"]), np.asarray(full["profile"]), np.asarray(r["profile_coeff"])
    lay, npts = [], []
    off = 0
    foff = np.concatenate([[0], np.cumsum([len(p) for p in pos])])
    okshape = P.shape == (len(wls), sum(len(pos[j - 1]) for j in want)) and F.shape == (len(wls), len(z)) and C.shape == (6, len(want), len(wls))
    for q, j in enumerate(want):
        zz = pos[j - 1] - edges[j - 1]
        row = []
        for w, wl in enumerate(wls):
            lam = wl * 1e9
            if not okshape:
                row.append(dict(v=[]))
                continue
            v = P[w, off:off + len(zz)] * lam
            A1, A2, A3r, A3i, a1, a3 = [C[i, q, w] for i in range(6)]
            c = np.real(A1 * np.exp(a1 * zz) + A2 * np.exp(-a1 * zz) + 2 * (A3r * np.cos(a3 * zz) - A3i * np.sin(a3 * zz))) * lam
            A = r["A_per_layer"][w, j - 1]
            d = st.ws[j - 1]
            inc = st.inc[j]
            n, k = st.nk(j, wl)
            curv = (4 * np.pi * max(n, k) / lam * ds) ** 2 / 8
            if inc:
                itol = A * 2.5 * ds / d + 1.5e-3
                ctol = abs(v).max() * 2.5 * ds / d + 2.5e-3 * lam / d if len(v) else 0
            else:
                itol = abs(v).mean() * d / lam * curv + abs(v).max() * ds / lam * (4 * np.pi * max(n, k) / lam * ds) / 4 + 1e-4 if len(v) else 0
                if incoh:
                    itol += 1.5e-3
                ctol = 1e-5 + 1e-5 * abs(v).max() if len(v) else 0
            idx = sorted(rng.sample(range(len(zz)), min(5, len(zz))))
            row.append(dict(v=fxl(v), c=fxl(c), f=fxl(F[w, foff[j - 1]:foff[j]] * lam), hk=fx(ds / lam * 1e3), z0=fx(zz[0] / ds) if len(zz) else 0, z1=fx((d - zz[-1]) / ds) if len(zz) else 0,
                            A=fx(A), itol=fx(itol), ctol=fx(ctol), oi=[i + 1 for i in idx], oz=[fx(zz[i] / lam) for i in idx],
                            otol=fx(3e-4 + 3e-4 * abs(v).max()) if len(v) else 0))
        off += len(zz)
        npts.append(len(zz))
        lay.append(row)
    # the specification describes lossless incidence and coherent stacks
    return dict(kind="prof", error="", shape=shape, seed=seed, pol=pol, theta=th, layers=want, lay=lay, npts=npts, sameRTA=bool(same),
                med=[st.med(w) for w in wls], kx=[st.kx(w, th) for w in wls], oracle=st.coherent)


def task(t):
    import mat
    mat.quiet()
    out = []
    for shape, seed in t["items"]:
        try:
            r = one(shape, seed)
        except Exception as ex:
            import traceback
            if "Incompatible absorption analytical functions" in str(ex):
                continue        # limitation of solcore (see DESIGN.md)
            r = dict(kind="prof", error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-800:], shape=shape, seed=seed)
        if r:
            out.append(r)
    return out


def run(ctx):
    rng = random.Random(ctx.seed * 1000 + 13)
    ctx.model("MCTmm", tl.MODEL % (1, "FALSE"), timeout=800)
    sh = tl.shapes(ctx, 4 if ctx.thorough else 3, "damWD")
    items = [(s, rng.randrange(10**9)) for s in sh if s["ls"]]
    rng.shuffle(items)
    n = 3500 if ctx.thorough else 800
    items = [i for i in items if len(i[0]["ls"]) == 1] * 2 + items
    items = [(s, rng.randrange(10**9)) for s, _ in items[:n]]
    tasks = [dict(items=items[k:k + 20]) for k in range(0, len(items), 20)]
    events = []
    for r in ctx.pmap(task, tasks, timeout=300):
        events += [dict(kind="prof", error=r["error"], where=r.get("where", ""))] if isinstance(r, dict) else r
    ctx.notes["profiles"] = len(events)
    ctx.validate("TmmTrace", events)
