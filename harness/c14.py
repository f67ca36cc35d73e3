"""C14: generation functions (make_absorption_function) of every structure type and every choice of requested profiles."""
import math, random, os
import numpy as np
from vlib import fx, fxl

MODEL = """CONSTANTS MaxP = 2
 MaxL = %d
 EmitOn = FALSE
INIT Init
NEXT Next
INVARIANTS SameGrid RightLayer StoredOnce Ascending
"""
SHAPES = """CONSTANTS MaxL = %d
INIT Init
NEXT Next
INVARIANTS Something Emit
"""
U = 1e12          # 1e-3 nm per m


class Ints:
    """interface layers: thickness (nm; multiples of ds if snap, otherwise layer boundaries are well away from samples), n, k"""

    def __init__(self, mask, rng, ds, snap):
        self.mask = [bool(x) for x in mask]
        self.lay, t = [], 0
        for _ in mask:
            # boundaries away from samples, both those from the top of the stack and those from the top of the layer
            m = rng.randint(12, 36)
            i = len(self.lay)
            f = rng.uniform(-.04, .04) + (.3 if i == 0 else .35 if i % 2 else .65)
            w = round((m if snap else m + f) * ds, 3)
            t += w
            self.lay.append((w, rng.uniform(1.3, 3), rng.uniform(.05, .8)))

    def layers(self, geom=False):
        from mat import Mat
        from solcore.structure import Layer
        out = []
        for w, n, k in self.lay:
            l = Layer(w * 1e-9, Mat(n, k, "L%.5f_%.5f" % (n, k)))
            if geom:
                l.geometry = []
            out.append(l)
        return out

    def prof(self, full):
        p = [i + 1 for i, m in enumerate(self.mask) if m or full]
        return p or None

    def parts(self, ds, A, itol, separate):
        """one grid for all layers, or one for each"""
        out, t = [], 0
        h = round(ds * 1e3)
        for i, ((w, n, k), m) in enumerate(zip(self.lay, self.mask)):
            W = round(w * 1e3)
            if separate:
                t = 0
            first = (-t) % h
            last = first + (W - first - 1) // h * h
            out.append(dict(w=W, req=m, A=fxl(A[:, i]), z0=fx(first / h), z1=fx((W - last) / h), hw=fx(ds / w), itol=itol(i, w)))
            t += W
        return [dict(h=h, lay=[l]) for l in out] if separate else [dict(h=h, lay=out)]


def bulkpart(width, h, A, req, itol):
    n = math.ceil(round(width / h, 9))
    return dict(h=round(h * U), lay=[dict(w=round(width * U), req=req, A=fxl(A), z0=0, z1=fx((width - (n - 1) * h) / h), hw=fx(h / width), itol=itol)])


def widths(parts):
    """start and thickness (1e-3 nm) of every layer"""
    t, out = 0, []
    for p in parts:
        for l in p["lay"]:
            out.append((t, l["w"]))
            t += l["w"]
    return out


def scaled(f, pos, parts):
    """function values times the thickness of the layer at the position"""
    W = widths(parts)
    F = np.atleast_2d(np.asarray(f(pos)))
    w = []
    for x in pos * U:
        c = [b for a, b in W if a <= x + 1.5]
        w.append(c[-1] if c else 0)
    return fxl(F * np.array(w)[None, :] / U)


def med(layers, inc, ex, wl):
    lam = wl * 1e9
    return [dict(n=[fx(inc), 0], d=0, inc=False)] + [dict(n=[fx(n), fx(k)], d=fx(w / lam), inc=False) for w, n, k in layers] + [dict(n=[fx(ex[0]), fx(ex[1])], d=0, inc=False)]


def oracle(rng, parts, first, ints, m, wl, w, pol, kx, norm, A, rel):
    """a few samples in each layer of the interface which begins with part `first`"""
    out = []
    P, t = [], 0          # (position, top of layer, layer number within the interface)
    for q, p in enumerate(parts):
        top, x, W = t, 0, sum(l["w"] for l in p["lay"])
        while x < W:
            P.append((q, top + x))
            x += p["h"]
        t += W
    L = widths(parts)
    n0 = sum(len(p["lay"]) for p in parts[:first])
    for j, (wd, n, kk) in enumerate(ints.lay):
        a, b = L[n0 + j]
        c = [i for i, (q, x) in enumerate(P) if a <= x < a + b]
        s = sorted(rng.sample(c, min(4, len(c))))
        out.append(dict(med=m, pol=pol, kx=kx, j=j + 1, w=w + 1, i=[x + 1 for x in s], z=[fx((P[x][1] - a) / 1e3 / (wl * 1e9)) for x in s], d=fx(wd / (wl * 1e9)), norm=norm,
                        A=fx(A[w, j]), rel=fx(rel)))
    return out


def curvature(lay, wls, ds, A, extra=0.0):
    def f(i, w):
        n, k = lay[i][1:]
        out = []
        for q, wl in enumerate(wls):
            x = 4 * math.pi * max(n, k) / (wl * 1e9) * ds
            d = 4 * math.pi * k / (wl * 1e9) * w
            v = max(A[q, i], 0) * (1 + d) * 2
            out.append(fx(v * (x * x / 8 + ds / w * x / 4) + 2e-4 + extra * max(A[q, i], 0)))
        return out
    return f


def one(sh, seed, dirn):
    from mat import Mat
    from rayflare.options import default_options
    from rayflare.utilities import make_absorption_function
    rng = random.Random(seed)
    u = rng.uniform
    t = sh["type"]
    wls = sorted(u(450e-9, 900e-9) for _ in range(rng.choice([1, 2])))
    ds = rng.choice([2, 3])
    o = default_options()
    o.wavelength, o.depth_spacing, o.parallel, o.pol, o.project_name = np.array(wls), ds * 1e-9, False, rng.choice("spu"), "gen"
    o.theta_in, o.phi_in = 0, 0
    snap = rng.random() < .35
    ints = [Ints(m, rng, ds, snap) for m in sh["ints"]]
    inc, ex = u(1, 1.3), u(1, 2)
    air, exm = Mat(inc, 0, "air%.4f" % inc), Mat(ex, 0, "ex%.4f" % ex)
    ev = dict(kind="gen", error="", type=t, seed=seed, rel=0, snap=snap, orc=[])
    nw = len(wls)

    def seeded(f):
        random.seed(seed)
        np.random.seed(seed % 2**32)
        return f()

    def asopt(x):
        # options may be given as a dictionary as well
        return dict(x) if seed % 3 == 0 else x

    if t in ("tmm", "rcwa"):
        it = ints[0]
        th = u(0, 1.1) if rng.random() < .7 else 0.0
        o.theta_in = th
        if t == "tmm":
            from rayflare.transfer_matrix_method import tmm_structure
            s = tmm_structure(it.layers(), air, exm)
            r = s.calculate(o, profile=True)
        else:
            from solcore.structure import Structure as SS
            from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
            o.RCWA_method, o.orders, o.A_per_order = "Inkstone", 1, False
            s = rcwa_structure(SS(it.layers(True)), size=((300, 0), (0, 300)), options=o, incidence=air, transmission=exm)
            r = s.calculate_profile(o)
        A = np.asarray(r["A_per_layer"])
        pos, f = make_absorption_function(r, s, asopt(o))
        parts = it.parts(ds, A, curvature(it.lay, wls, ds, A), False)
        ev.update(ps=parts, pos=[round(x * U) for x in pos], F=scaled(f, pos, parts))
        ev["full"] = ev["F"]
        for w, wl in enumerate(wls):
            ev["orc"] += oracle(rng, parts, 0, it, med(it.lay, inc, (ex, 0), wl), wl, w, o.pol, fx(inc * math.sin(th)), False, A, 2e-3 if t == "rcwa" else 5e-4)
        return ev

    if t in ("rt", "rtl"):
        from rayflare.ray_tracing import rt_structure
        from rayflare import textures as tx
        nb = len(ints) - 1
        hb = rng.choice([1e-6, 2e-6])
        bw = [rng.randint(8, 20) * hb * (1 if t == "rtl" or rng.random() < .5 else 1.0) for _ in range(nb)]
        bn = [u(1.3, 2) for _ in range(nb)]
        opaque = rng.random() < .4
        od = [20. if opaque and i == 0 else u(.1, 1) for i in range(nb)]
        bk = [x * min(wls) / (4 * math.pi * b) for x, b in zip(od, bw)]
        bulks = [Mat(n, k, "b%d" % i) for i, (n, k) in enumerate(zip(bn, bk))]
        nx = 8
        o.nx = o.ny = nx
        o.n_rays, o.depth_spacing_bulk, o.lookuptable_angles, o.I_thresh = nx * nx * 2, hb, 150, 1e-4
        o.random_ray_position, o.randomize_surface = False, False
        textured = rng.random() < .4

        def mk(full):
            from rayflare.textures import planar_surface, regular_pyramids
            ts = []
            for i, it in enumerate(ints):
                kw = {}
                if it.lay:
                    kw = dict(interface_layers=it.layers(), name="s%d" % i)
                    if it.prof(full):
                        kw["prof_layers"] = it.prof(full)
                ts.append(regular_pyramids(40, True, 1, **kw) if textured and i == 0 else planar_surface(**kw))
            st = rt_structure(ts, bulks, bw, air, exm, o, t == "rtl", dirn, True)
            return st, seeded(lambda: st.calculate(o))
        sf, rf = mk(True)
        ss, rs = mk(False) if t == "rtl" else (sf, rf)
        parts = []
        Ab = np.asarray(rf["A_per_layer"])
        for i, it in enumerate(ints):
            if it.lay:
                A = np.asarray(rf["A_per_interface"][i])
                first = len(parts)
                parts += it.parts(ds, A, curvature(it.lay, wls, ds, A, .08), True)
                for w, wl in enumerate(wls):
                    if not textured and ((i == 0 and opaque) or (i == nb and not opaque)):
                        below = (bn[i], bk[i]) if i < nb else (ex, 0)
                        ev["orc"] += oracle(rng, parts, first, it, med(it.lay, bn[i - 1] if i else inc, below, wl), wl, w, o.pol, 0, True, A, .06)
            if i < nb:
                # (rescaled such that the trapezium rule without the last step gives the absorption)
                a = max(4 * math.pi * bk[i] / w * hb for w in wls) * (1.5 if not textured else 2.5)
                parts.append(bulkpart(bw[i], hb, Ab[:, i], True, [fx(max(Ab[q, i], 0) * (1.5 * hb / bw[i] + min(a * a / 6 + .3 * a * hb / bw[i], .5)) + 3e-4) for q in range(nw)]))
        pf, ff = make_absorption_function(rf, sf, asopt(o))
        ps, fs = make_absorption_function(rs, ss, asopt(o))
        ev.update(ps=parts, pos=[round(x * U) for x in ps], F=scaled(fs, ps, parts), full=scaled(ff, pf, parts), rel=90000)
        return ev

    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.matrix_formalism import process_structure, calculate_RAT
    from rayflare.textures import planar_surface
    hb = rng.choice([1e-6, 2e-6])
    bw = rng.randint(8, 20) * hb
    bn = u(1.5, 3)
    opaque = rng.random() < .4
    bk = (20. if opaque else u(.1, .8)) * min(wls) / (4 * math.pi * bw)
    o.n_theta_bins, o.c_azimuth, o.phi_symmetry, o.depth_spacing_bulk, o.I_thresh = (16 if t == "mx" else 5), .25, math.pi / 2, hb, 1e-4
    o.nx = o.ny = 5
    o.n_rays, o.lookuptable_angles = 300, 40
    o.random_ray_position, o.only_incidence_angle = False, False

    def mk(full):
        oo = default_options()
        for k in o:
            oo[k] = o[k]
        oo.project_name = "full" if full else "sub"
        oo.bulk_profile = True if full else sh["bulk"]
        L = []
        for i, it in enumerate(ints):
            kw = dict(layers=it.layers(), name="i%d" % i)
            if it.lay:
                kw["prof_layers"] = it.prof(full)
                kw["coherent"] = True
            if t == "mxrt":
                kw["texture"] = planar_surface()
            L.append(Interface("TMM" if t == "mx" else "RT_TMM" if it.lay else "RT_Fresnel", **kw))
        S = Structure([L[0], BulkLayer(bw, Mat(bn, bk, "bulk"), name="bulk"), L[1]], incidence=air, transmission=exm)
        seeded(lambda: process_structure(S, oo, dirn))
        r = calculate_RAT(S, oo, dirn)
        return S, oo, r
    Sf, of, rf = mk(True)
    Ss, os_, rs = mk(False)
    RAT, per = rf[0], rf[1]
    Ab = np.asarray(RAT.A_bulk).reshape(nw)
    AL = [np.asarray(x) for x in per["a"]]
    parts = []
    pol = o.pol
    q = 0
    for i, it in enumerate(ints):
        if it.lay:
            A = np.asarray(rf[1]["a"][i]).sum(0) if np.asarray(rf[1]["a"][i]).ndim == 3 else None
            first = len(parts)
            parts += it.parts(ds, A, curvature(it.lay, wls, ds, A, .02 if t == "mx" else .08), t == "mxrt")
            for w, wl in enumerate(wls):
                if (i == 0 and opaque) or (i == 1 and not opaque and t == "mx"):
                    ev["orc"] += oracle(rng, parts, first, it, med(it.lay, bn if i else inc, (ex, 0) if i else (bn, bk), wl), wl, w, pol, 0, True, A, .06)
        if i == 0:
            a = max(4 * math.pi * bk / w * hb for w in wls)
            parts.append(bulkpart(bw, hb, Ab, sh["bulk"], [fx(max(x, 0) * (1.5 * hb / bw + a * a / 6) + 5e-4) for x in Ab]))
    pf, ff = make_absorption_function(rf, Sf, asopt(of))
    ps, fs = make_absorption_function(rs, Ss, asopt(os_))
    ev.update(ps=parts, pos=[round(x * U) for x in ps], F=scaled(fs, ps, parts), full=scaled(ff, pf, parts), rel=1000 if t == "mx" else 90000, opaque=opaque)
    return ev


def task(t):
    import mat
    mat.quiet()
    out = []
    for i, (sh, seed) in enumerate(t["items"]):
        d = os.path.join(t["dir"], "g%d" % i)
        os.makedirs(d, exist_ok=True)
        try:
            out.append(one(sh, seed, d))
        except Exception as ex:
            import traceback
            out.append(dict(kind="gen", error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-800:], shape=sh, seed=seed))
    return out


def run(ctx):
    rng = random.Random(ctx.seed * 1000 + 14)
    ctx.model("MCGeneration", MODEL % (3 if ctx.thorough else 2), timeout=800)
    sh = ctx.generate("MCGenShapes", SHAPES % (3 if ctx.thorough else 2))
    by = {}
    for s in sh:
        by.setdefault(s["type"], []).append(s)
    k = 6 if ctx.thorough else 1
    n = dict(tmm=24, rcwa=16, rt=16, rtl=45, mx=48, mxrt=14)
    items = []
    for ty, c in n.items():
        l = by[ty][:]
        rng.shuffle(l)
        items += [(l[i % len(l)], rng.randrange(10**9)) for i in range(c * k)]
    rng.shuffle(items)
    tasks = [dict(items=items[i:i + 4], dir=ctx.scratch("gen")) for i in range(0, len(items), 4)]
    events = []
    for r in ctx.pmap(task, tasks, timeout=400):
        events += [dict(kind="gen", error=r["error"], where=r.get("where", ""))] if isinstance(r, dict) else r
    ctx.notes["generation functions"] = len(events)
    ctx.validate("GenerationTrace", events)
