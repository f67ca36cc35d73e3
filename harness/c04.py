"""C04: redistribution matrices conserve power per incidence channel, for every interface method. Discretisations come from the
Redist specification; the matrices are those process_structure stores, judged column by column by RedistTrace."""
import math, os, random
import numpy as np
import matlib, tmmlib as tl
from vlib import fx, fxl

CFG = """CONSTANTS MaxN = %d
 Fineness <- %s
 Periods = {%s}
 Indices <- Media
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS Mirrors Refracts Somewhere Conserved Lambert Emit
"""


def edge(d, q):
    return math.pi / 2 * q / d["n"] if d["lin"] else math.asin(q / d["n"])


def rows(d):
    """(polar bin, azimuth index, azimuth bins) of every channel"""
    return [(t, j, matlib.nphi(d, t)) for t in range(2 * d["n"]) for j in range(matlib.nphi(d, t))]


def centre(d, c, T):
    t, j, m = T[c]
    q = t if t < d["n"] else 2 * d["n"] - 1 - t
    return (edge(d, q) + edge(d, q + 1)) / 2, 2 * math.pi / d["k"] * (j + .5) / m


def rt_fields(rng, rt, d):
    """ray-tracing options: number of rays, which channels are launched"""
    n = matlib.n_in(d)
    nx = rt["nx"]
    reps = rt["reps"]
    r = dict(nx=nx, ny=nx, n_rays=nx * nx * n * reps, random_ray_angles=False, random_ray_position=rng.random() < .5, avoid_edges=False,
             randomize_surface=False, lookuptable_angles=60, phi_in=0.3, theta_in=0.4)
    return r




def texture(name, rng):
    from rayflare import textures as tx
    if name == "planar":
        return tx.planar_surface()
    if name == "pyramids":
        return tx.regular_pyramids(rng.choice([35., 52., 55.]), rng.random() < .7, rng.choice([1, 2]))
    if name == "grooves":
        return tx.V_grooves(1, rng.choice([30., 50.]), rng.choice(["x", "y"]))
    if name == "random":
        return tx.random_pyramids(52, 5)[0] if False else tx.regular_pyramids(40., True, 1)
    raise KeyError(name)


def interface(x, name, st, prof):
    from rayflare.structure import Interface
    m = x["method"]
    if m in ("Mirror", "Lambertian"):
        return Interface(m, layers=[], name=name)
    kw = dict(layers=st.layers(), name=name)
    if m in ("TMM", "RT_TMM"):
        kw.update(coherent=st.coherent)
        if not st.coherent:
            kw.update(coherency_list=st.coh())
        if prof:
            kw.update(prof_layers=list(range(1, len(st.ws) + 1)))
    if m in ("RT_Fresnel", "RT_TMM"):
        kw.update(texture=texture(x["tex"], random.Random(x["seed"])))
    if m == "RT_Fresnel":
        kw["layers"] = []
    if m == "RCWA":
        from mat import Mat
        for i, l in enumerate(kw["layers"]):
            l.geometry = [] if not x["grating"] or i else [dict(type="circle", mat=Mat(x["gn"], x["gk"], "post"), center=(0, 0), radius=x["period"] * .3, angle=0)]
        kw.update(d_vectors=((x["period"], 0), (0, x["period"])), rcwa_orders=x["orders"])
        if prof:
            kw.update(prof_layers=list(range(1, len(st.ws) + 1)))
    return Interface(m, **kw)


def one(t):
    from rayflare.structure import BulkLayer, Structure
    from rayflare.matrix_formalism import process_structure
    from rayflare.options import default_options
    from rayflare.utilities import get_savepath
    from sparse import load_npz
    import xarray as xr
    rng = random.Random(t["seed"])
    np.random.seed(t["seed"] % 2**32)
    random.seed(t["seed"])
    d, xs = t["d"], t["surf"]
    sts = []
    for i, x in enumerate(xs):
        # all media in which light travels are transparent; the front stack ends in the bulk, where the back stack begins
        st = tl.Stack(x["shape"], rng)
        if x["method"] in ("RT_Fresnel", "Mirror", "Lambertian"):
            st.cls, st.par, st.inc, st.ws = [st.cls[0], st.cls[-1]], [st.par[0], st.par[-1]], [st.inc[0], st.inc[-1]], []
        if i == 0:
            st.par[-1] = tl.medium("g", rng)
        else:
            st.par[0] = sts[0].par[-1]
        if t.get("snap"):
            st.ws = [max(round(w / t["snap"]), 3) * t["snap"] for w in st.ws]
            for q, w in enumerate(st.ws):
                st.par[q + 1] = st.par[q + 1][:4] + (w,)
        sts.append(st)
    wls = [rng.uniform(400e-9, 1000e-9) for _ in range(t["nw"])]
    o = default_options()
    for k, v in matlib.options(d).items():
        o[k] = v
    o.wavelength = np.array(wls)
    o.pol, o.depth_spacing, o.bulk_profile, o.parallel = t["pol"], (t.get("snap") or 1) * 1e-9, False, False
    o.project_name, o.RCWA_method, o.orders, o.A_per_order = "c04", "Inkstone", 1, False
    for k, v in t["rt"].items():
        o[k] = v
    prof = bool(t.get("snap"))
    bulk = BulkLayer(20e-6, sts[0].mat(len(sts[0].cls) - 1), name="bulk")
    S = Structure([interface(xs[0], "f", sts[0], prof), bulk, interface(xs[1], "b", sts[1], prof)], incidence=sts[0].mat(0),
                  transmission=sts[1].mat(len(sts[1].cls) - 1))
    process_structure(S, o, t["dir"], True)
    path = get_savepath(t["dir"], "c04")
    T = rows(d)
    nin = matlib.n_in(d)
    out = []
    for i, (x, st, nm, sides) in enumerate(zip(xs, sts, "fb", (("front", "rear"), ("front",)))):
        m = x["method"]
        if m in ("Mirror", "Lambertian"):
            sides = ("front",)
        for side in sides:
            rev = side == "rear"
            RT = load_npz(os.path.join(path, nm + side + "RT.npz")).todense()
            A = load_npz(os.path.join(path, nm + side + "A.npz")).todense()
            if RT.ndim == 2:
                RT, A = RT[None], A[None]
            L = 1 if m in ("Mirror", "Lambertian") else len(st.ws)
            isrt = m.startswith("RT")
            only = dict(on=bool(o.only_incidence_angle and isrt and i == 0 and not rev), all=o.phi_in == "all", theta=fx(o.theta_in), num=t.get("num", 0), den=t.get("den", 1))
            plan = not isrt or (x["tex"] == "planar" and not only["on"] and not o.random_ray_angles)
            what = {"Mirror": "mirror", "Lambertian": "lambert"}.get(m) or ("grating" if m == "RCWA" and x["grating"] else "planar" if plan else "any")
            nang = -(-o.n_rays // (o.nx * o.ny)) if isrt else nin
            rays = max(1, (nang // nin)) * o.nx * o.ny
            for w, wl in enumerate(wls[:RT.shape[0]]):
                med = st.med(wl, rev)
                if m == "RT_Fresnel":
                    med = [med[0], med[-1]]
                n1, n2 = med[0]["n"][0], med[-1]["n"][0]
                cols = []
                for j in range(RT.shape[2]):
                    c = j + (nin if rev else 0)
                    th, ph = centre(d, c, T)
                    kx = st.kx(wl, th, rev)
                    if st.lost(wl, th, rev) and not m.startswith("RCWA"):
                        pop, orc = "lost", False
                    else:
                        pop = "full"
                        orc = st.usable([wl], th, rev)
                    if isrt:
                        pop = "either"
                        orc = orc and plan
                    e = RT[w][:, j]
                    tol = tl.otol(st) if not isrt else int(6.0 * math.sqrt(.25 / rays) * 1e6) + 4000
                    if m == "RCWA":
                        tol = 300
                        orc = orc and not any(st.inc)
                    q = dict(out=[[int(a), fx(e[a])] for a in np.nonzero(e)[0]], A=fxl(A[w][:, j]), pop=pop, oracle=bool(orc), med=med, kx=kx,
                             si=fx(math.sin(th)), tol=tol, kin=[fx(-n1 / 1e6 * math.sin(th) * math.cos(ph)), fx(-n1 / 1e6 * math.sin(th) * math.sin(ph))])
                    cols.append(q)
                cols2 = cols
                if any(q["pop"] == "lost" for q in cols):
                    # known finding of C11: evanescent light in incoherent layers; these columns are not judged
                    cols2 = [dict(q, out=[], A=[0] * L, pop="either", oracle=False) if q["pop"] == "lost" else q for q in cols]
                g = wl * 1e9 / x["period"] if m == "RCWA" else 0
                out.append(dict(kind="surface", error="", what=what, method=m, tex=x.get("tex", ""), d=d, front=not rev, rows=int(RT.shape[1]), layers=L,
                                cols=cols2, stol=10 if not (m == "RCWA") else 60, only=only, launched=-1 if (not isrt or only["on"] or o.random_ray_angles) else min(nang, nin),
                                pol=t["pol"], n1=n1, n2=n2, ratio=isrt, M=4, g1=[fx(g), 0], g2=[0, fx(g)], wl=wl, task=t["seed"]))
            if prof and m in ("TMM", "RCWA") and L > 0:
                ds = xr.open_dataset(os.path.join(path, nm + side + "profmat.nc"))
                P = ds["profile"].transpose("wl", "z", "global_index").data
                I = ds["intgr"].transpose("wl", "global_index").data
                ds.close()
                h = t["snap"]
                npt = [int(round(v / h)) for v in st.ws]
                off = np.concatenate([[0], np.cumsum(npt)])
                for w, wl in enumerate(wls):
                    lam = wl * 1e9
                    pc = []
                    if P.shape != (len(wls), off[-1], nin):
                        pc = [dict(v=[], A=[], tol=[])]
                    else:
                        for j in range(nin):
                            th, _ = centre(d, j + (nin if rev else 0), T)
                            if st.lost(wl, th, rev):
                                continue
                            vs, As, tols = [], [], []
                            for q in range(L):
                                # a sample exactly on a layer boundary may belong to either layer
                                # (the RCWA grid of light from the rear is measured from the rear)
                                a = 0 if m == "RCWA" and rev else 1
                                v = P[w, off[q] + a:off[q + 1] - 1 + a, j] * lam
                                n, k = st.nk(q + 1, wl)
                                kz = abs(2 * (complex(n, k) ** 2 - (st.kx(wl, th, rev) / 1e6) ** 2) ** .5)
                                x4 = 2 * math.pi / lam * h * kz
                                tol = (abs(v).mean() * st.ws[q] * x4 ** 2 / 6 + abs(v).max() * h * x4) / lam + 1e-4
                                if st.inc[q + 1] or not st.coherent:
                                    tol += A[w][q, j] * 2.5 * h / st.ws[q] + 2e-3
                                vs.append(fxl(v))
                                As.append(fx(A[w][q, j]))
                                tols.append(fx(tol))
                            pc.append(dict(v=vs, A=As, tol=tols))
                    out.append(dict(kind="prof", error="", method=m, prof=pc, want=list(range(L)), hk=fx(h / lam * 1e3), z0=1000000, z1=1000000, wl=wl, side=side, task=t["seed"]))
    return out


def task(t):
    import mat, shutil
    mat.quiet()
    os.makedirs(t["dir"], exist_ok=True)
    try:
        return one(t)
    except Exception as ex:
        import traceback
        if "Incompatible absorption analytical functions" in str(ex):
            return []
        return [dict(kind="surface", error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-800:], task=t["seed"], surf=t["surf"])]
    finally:
        shutil.rmtree(t["dir"], ignore_errors=True)


def surface(method, rng, shapes, tex=None, first=True, rcwa=None):
    coh_only = method == "RCWA"
    s = dict(rng.choice([s for s in shapes if (not coh_only or (s["ls"] and not set(s["ls"]) & set("WDz"))) and (method != "RT_TMM" or s["ls"])]))
    if s["b"] == "x":
        s["b"] = "g"
    x = dict(method=method, shape=s, seed=rng.randrange(10**9))
    if tex:
        x["tex"] = tex
    if method == "RCWA":
        gr = rcwa == "grating"
        x.update(grating=gr, period=rng.uniform(300, 900), orders=(rng.choice([5, 9]) if gr else rng.choice([1, 3])), gn=rng.uniform(1, 3), gk=rng.choice([0, .3]))
    return x


def tasks(ctx, rng, ds, shapes):
    out = []
    big = 3 if ctx.thorough else 1

    def add(a, b, d, **kw):
        n = len(out)
        t = dict(seed=rng.randrange(10**9), d=d, surf=[a, b], pol=rng.choice("spu"), nw=kw.pop("nw", 2), dir=ctx.scratch("s%d" % n))
        t["rt"] = dict(nx=2, ny=2, n_rays=100, only_incidence_angle=False, theta_in=0.4, phi_in=0.3)
        t["rt"].update(kw.pop("rt", {}))
        t.update(kw)
        out.append(t)
    pick = lambda: rng.choice(ds)
    small = [d for d in ds if matlib.n_in(d) <= 10]
    for i in range(22 * big):       # multilayers, with the ideal back surfaces
        b = rng.choice(["TMM", "Mirror", "Lambertian", "TMM"])
        kw = {}
        if i % 2:
            kw = dict(snap=rng.choice([1, 2]), nw=1)
        sh = [s for s in shapes if not kw or (s["ls"] and not set(s["ls"]) & set("zWD"))]
        a, bb = surface("TMM", rng, sh), surface(b, rng, sh)
        add(a, bb, rng.choice(small) if kw else pick(), **kw)
    for d in rng.sample(ds, min(len(ds), 10 * big)):     # ideal surfaces on further discretisations
        add(surface("RT_Fresnel", rng, shapes, "planar"), surface(rng.choice(["Mirror", "Lambertian", "Lambertian"]), rng, shapes), d, nw=1)
    for i in range(8 * big):        # gratings and uniform layers by RCWA
        d = rng.choice(small)
        kw = dict(snap=10, nw=1) if i % 4 == 3 else {}
        add(surface("RCWA", rng, shapes, rcwa="grating" if i % 2 else ""), surface("RCWA", rng, shapes, rcwa="" if i % 2 else "grating"), d, nw=1 if kw or i % 2 else 2, **({"snap": 10} if kw else {}))
    for i in range(8 * big):        # plane surfaces by ray tracing: many rays per channel
        d = rng.choice(small)
        m = ["RT_Fresnel", "RT_TMM"][i % 2]
        n = matlib.n_in(d)
        add(surface(m, rng, [s for s in shapes if not set(s["ls"]) & set("WD")], "planar"), surface(["RT_TMM", "RT_Fresnel"][i % 2], rng, [s for s in shapes if not set(s["ls"]) & set("WD")], "planar"), d, nw=1,
            rt=dict(nx=20, ny=20, n_rays=400 * n, lookuptable_angles=200, random_ray_position=False, random_ray_angles=False))
    for i in range(16 * big):       # textures; channels which are not simulated
        d = rng.choice(small)
        n = matlib.n_in(d)
        m = [rng.choice(["RT_Fresnel", "RT_TMM"]) for _ in range(2)]
        mode = i % 4
        rt = dict(nx=4, ny=4, n_rays=16 * n * 2, lookuptable_angles=30, random_ray_position=bool(rng.random() < .5), random_ray_angles=False)
        kw = {}
        if mode == 1:       # not enough rays
            rt["n_rays"] = 16 * rng.randrange(1, n + 1)
        if mode == 2:       # only the incidence direction
            rt.update(only_incidence_angle=True, theta_in=rng.uniform(.05, 1.4))
            if rng.random() < .4:
                rt["phi_in"] = "all"
            else:
                den = 997
                num = rng.randrange(1, den)
                kw = dict(num=num, den=den)
                rt["phi_in"] = 2 * math.pi / d["k"] * num / den
        if mode == 3:
            rt["random_ray_angles"] = True
        tx = ["planar", "pyramids", "grooves"]
        sh = [s for s in shapes if not set(s["ls"]) & set("WDz")]
        add(surface(m[0], rng, sh, rng.choice(tx)), surface(m[1], rng, sh, rng.choice(tx)), d, nw=1, rt=rt, **kw)
    return out


def run(ctx):
    rng = random.Random(ctx.seed * 1000 + 4)
    ctx.model("MCRedist", CFG % (3 if ctx.thorough else 2, "F3" if ctx.thorough else "F2", "1, 2, 4, 6" if ctx.thorough else "1, 4", "FALSE"), timeout=600)
    ds = ctx.generate("MCRedist", CFG % (4, "F3", "1, 2, 3, 4, 6, 8", "TRUE"))
    shapes = tl.shapes(ctx, 3)
    ts = tasks(ctx, rng, ds, shapes)
    events = []
    for t, r in zip(ts, ctx.pmap(task, ts, timeout=400)):
        if isinstance(r, dict):
            r = [dict(kind="surface", error=r["error"], where=r.get("where", ""))]
        events += r
    ctx.notes["calculations"] = len(ts)
    ctx.validate("RedistTrace", events)
