"""C18: wave-optical results. One physical situation is described in several ways (sequences of re-descriptions from MCGrating);
GratingTrace judges accounting, polarisation averages and agreement of all descriptions. Uniform structures are compared with the
multilayer oracle of the Tmm specification, columns of redistribution matrices with calculations of the structure."""
import math, os, random
import numpy as np
import tmmlib as tl
from vlib import fx, fxl

CFG = """CONSTANTS NL = %d
 MaxLen = %d
 EmitOn = %s
 Full = %s
INIT Init
NEXT Next
INVARIANTS Unchanged Group Emit
"""


class Cell:
    def __init__(self, rng, nl, lossless=None):
        from mat import Mat
        u = rng.uniform
        self.nl, self.rng = nl, rng
        self.lossless = rng.random() < .3 if lossless is None else lossless
        self.inc, self.sub = Mat(u(1, 1.5), 0, "inc%.6f" % u(0, 1)), Mat(u(1, 3), 0 if self.lossless or rng.random() < .6 else u(.05, 1), "sub%.6f" % u(0, 1))
        self.lossy = [not self.lossless and rng.random() < .6 for _ in range(nl)]
        self.mats = [Mat(u(1.2, 3), u(.02, .6) if self.lossy[i] else 0, "l%d_%.6f" % (i, u(0, 1))) for i in range(nl)]
        self.w = [u(30, 200) for _ in range(nl)]
        a = rng.randint(280, 600)
        self.size = ((a, 0), (0, rng.choice([a, rng.randint(280, 600)])))
        b = self.size[1][1]
        self.geo = []
        for i in range(nl):
            g = []
            if rng.random() < .75:
                sm = Mat(u(1.2, 3.6), 0 if not self.lossy[i] else u(0, .5), "h%d_%.6f" % (i, u(0, 1)))
                g.append(self.shape(rng, a / 2 * .8, b / 2 * .8, (u(-.2, .2) * a, u(-.2, .2) * b), sm))
                if rng.random() < .35:
                    # a second shape, apart from the first
                    s2 = Mat(u(1.2, 3.6), 0, "q%d_%.6f" % (i, u(0, 1)))
                    # (Inkstone cannot combine ellipses with other shapes)
                    two = ("circle", "rectangle", "polygon")
                    g = [self.shape(rng, .2 * a, .2 * b, (-.25 * a, .05 * b), sm, two), self.shape(rng, .2 * a, .2 * b, (.25 * a, -.1 * b), s2, two)]
            self.geo.append(g)
        self.orders = rng.choice([5, 9, 9, 13])
        self.theta, self.phi = rng.choice([0, u(0, 1.2), u(0, 1.2)]), u(-math.pi, 2 * math.pi)
        self.wl = [u(400e-9, 1000e-9) for _ in range(rng.choice([1, 2]))]
        self.ds = rng.choice([9.371e-9, 21.37e-9])
        self.mid = [u(.2, .8) for _ in range(8)]

    @staticmethod
    def shape(rng, ra, rb, c, m, kinds=("circle", "ellipse", "rectangle", "polygon")):
        u = rng.uniform
        k = rng.choice(kinds)
        r = min(ra, rb)
        if k == "circle":
            return dict(type=k, mat=m, center=c, radius=u(.3, 1) * r)
        if k == "ellipse":
            return dict(type=k, mat=m, center=c, halfwidths=(u(.3, 1) * r, u(.3, 1) * r), angle=u(0, 180))
        if k == "rectangle":
            return dict(type=k, mat=m, center=c, halfwidths=(u(.2, .7) * r, u(.2, .7) * r), angle=u(0, 90))
        n = rng.randint(3, 5)
        an = sorted(u(0, 2 * math.pi / n * .9) + 2 * math.pi * i / n for i in range(n))
        return dict(type=k, mat=m, center=c, vertices=[(r * .9 * math.cos(x), r * .9 * math.sin(x)) for x in an])

    def draw(self, s, d, single=True):
        """one shape under description d"""
        s = dict(s)
        f = d["unit"]
        q, mir = d["str"]
        offx, offy = .13 * d["off"] * self.size[0][0], -.21 * d["off"] * self.size[1][1]

        def mp(v):
            x, y = (-v[0] if mir else v[0]), v[1]
            for _ in range(q):
                x, y = -y, x
            return (x * f, y * f)
        s["center"] = mp((s["center"][0] + offx, s["center"][1] + offy))
        if d["form"]:
            # another way of writing the same shape
            if s["type"] == "circle" and single:
                s = dict(type="ellipse", mat=s["mat"], center=s["center"], halfwidths=(s["radius"],) * 2, angle=17.)
            elif s["type"] in ("ellipse", "rectangle"):
                s.update(halfwidths=s["halfwidths"][::-1], angle=s["angle"] + 90)
            elif s["type"] == "polygon":
                cx, cy = 11., -7.
                s = dict(s, center=(s["center"][0] + mp((cx, cy))[0], s["center"][1] + mp((cx, cy))[1]), vertices=[(x - cx, y - cy) for x, y in s["vertices"]])
        if "radius" in s:
            s["radius"] *= f
        if "halfwidths" in s:
            s["halfwidths"] = tuple(x * f for x in s["halfwidths"])
            s["angle"] = (-s["angle"] if mir else s["angle"]) + 90 * q
        if "vertices" in s:
            v = [mp(x) for x in s["vertices"]]
            s["vertices"] = v[::-1] if mir else v
        return s

    def build(self, d):
        from solcore.structure import Layer, Structure
        L, hit = [], {}
        f = d["unit"]
        for i, (j, e) in enumerate(d["pieces"]):
            if j == 0:
                from mat import Mat
                w, m, g = 0., Mat(1.77, .1, "none"), []
            else:
                w, m = self.w[j - 1] * e / 8 * f, self.mats[j - 1]
                g = [self.draw(s, d, len(self.geo[j - 1]) == 1) for s in self.geo[j - 1]]
                if d["first"]:
                    g = g[::-1]
            if d["list"]:
                L.append([w, float(m._n), float(m._k), g])
            else:
                L.append(Layer(w * 1e-9, m, geometry=g))
        a, b = self.size[0][0] * f, self.size[1][1] * f
        if d["str"][0] % 2:
            a, b = b, a
        return (L if d["list"] else Structure(L)), ((a, 0), (0, b))

    def run(self, d, pol, profile=False, stack=None, theta=None, phi=None, wl=None, orders=None, back=False):
        from rayflare.options import default_options
        from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
        o = default_options()
        q, mir = d["light"]
        ph = self.phi if phi is None else phi
        o.theta_in = self.theta if theta is None else theta
        o.phi_in = (math.pi - ph if mir else ph) + q * math.pi / 2 - 2 * math.pi * d["turns"]
        if d["pol"]:
            pol = {"s": (1, 0), "p": (0, 1)}.get(pol, pol)
            if isinstance(pol, tuple):
                pol = (-pol[0], -pol[1])
        if mir and isinstance(pol, tuple):
            pol = (pol[0], -pol[1])
        o.wavelength, o.pol, o.orders = np.array(self.wl if wl is None else wl) * d["unit"], pol, self.orders
        o.RCWA_method, o.A_per_order, o.parallel, o.depth_spacing = "Inkstone", False, False, self.ds * d["unit"]
        st, size = self.build(d)
        s = rcwa_structure(st, size, o, self.inc, self.sub)
        r = s.calculate_profile(o) if profile else s.calculate(o)
        return dict(R=fxl(r["R"]), T=fxl(r["T"]), A=fxl(np.asarray(r["A_per_layer"])), P=fxl(np.asarray(r["profile"]).ravel() * 1000) if profile else [])


def plain(nl):
    return dict(pieces=[[j + 1, 8] for j in range(nl)], off=0, str=[0, False], light=[0, False], unit=1, turns=0, form=0, first=0, pol=0, list=0)


def area(s):
    if s["type"] == "circle": return math.pi * s["radius"] ** 2
    if s["type"] == "ellipse": return math.pi * s["halfwidths"][0] * s["halfwidths"][1]
    if s["type"] == "rectangle": return 4 * s["halfwidths"][0] * s["halfwidths"][1]
    v = s["vertices"]
    return abs(sum(v[i][0] * v[i - 1][1] - v[i - 1][0] * v[i][1] for i in range(len(v)))) / 2


def group(t):
    rng = random.Random(t["seed"])
    what = dict(seed=t["seed"])
    out = []
    try:
        nl = t["nl"]
        c = Cell(rng, nl)
        prof = rng.random() < .5
        pl = plain(nl)
        out.append(dict(kind="base", error="", nl=nl, lossy=c.lossy, d=pl, res={q: c.run(pl, q, prof) for q in "spu"}, **what))
        for h in t["hists"]:
            for x in h[-1:] if rng.random() < .7 else h:
                q = rng.choice("spu")
                # piecewise profiles are sampled at the same depths; zero-thickness layers make the solver's profile undefined there
                pr = prof
                r = c.run(x["d"], q, pr)
                out.append(dict(kind="var", error="", nl=nl, lossy=c.lossy, d=x["d"], pol=q, r=r, **what))
        a = rng.uniform(0, 2 * math.pi)
        out.append(dict(kind="tilt", error="", r=c.run(pl, (math.cos(a), math.sin(a))), q=c.run(pl, (-math.sin(a), math.cos(a))), **what))
        # permittivity map of a patterned layer
        from rayflare.options import default_options
        from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
        for j in range(nl):
            if len(c.geo[j]) == 1:
                st, size = c.build(pl)
                o = default_options()
                o.wavelength, o.orders, o.RCWA_method, o.pol = np.array(c.wl), c.orders, "Inkstone", "s"
                s = rcwa_structure(st, size, o, c.inc, c.sub)
                m = s.get_fourier_epsilon(j + 1, c.wl[0] * 1e9, o, n_points=60, plot=False)
                e, sh = np.asarray(m[2])[:-1, :-1].mean(), c.geo[j][0]["mat"]
                host, shp = c.mats[j]._n ** 2 - c.mats[j]._k ** 2, sh._n ** 2 - sh._k ** 2
                out.append(dict(kind="eps", error="", mean=fx(e), host=fx(host), shape=fx(shp), frac=fx(area(c.geo[j][0]) / (size[0][0] * size[1][1])), tol=2000, **what))
    except Exception as ex:
        import traceback
        out.append(dict(kind="var", error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-800:], **what))
    return out


def matrix(t):
    """columns of the matrices of process_structure against calculations of the structure, both sides"""
    rng = random.Random(t["seed"])
    out = []
    what = dict(seed=t["seed"])
    try:
        from rayflare.options import default_options
        from rayflare.rigorous_coupled_wave_analysis import RCWA, rcwa_structure
        from rayflare.angles import make_angle_vector
        from solcore.structure import Layer, Structure
        c = Cell(rng, rng.choice([1, 2]))
        c.lossy = c.lossy
        from mat import Mat
        if c.sub._k:
            c.sub = Mat(c.sub._n, 0, "sub")
        pl = plain(c.nl)
        o = default_options()
        o.wavelength, o.pol, o.orders, o.parallel, o.RCWA_method = np.array(c.wl), rng.choice("spu"), c.orders, False, "Inkstone"
        o.n_theta_bins, o.c_azimuth, o.phi_symmetry = rng.choice([2, 3]), rng.choice([.25, .5]), rng.choice([2 * math.pi, math.pi, math.pi / 2])
        c.orders = rng.choice([5, 9])
        side = rng.choice(["front", "rear"])
        st, size = c.build(pl)
        full, A = RCWA(st, size, c.orders, o, t["dir"], c.inc, c.sub, False, None, side, "m%d" % t["seed"], save=False)
        full, A = full.todense(), A.todense()
        _, _, av = make_angle_vector(o.n_theta_bins, o.phi_symmetry, o.c_azimuth)
        n = len(av) // 2
        for j in range(n):
            for w in range(len(c.wl)):
                L = list(st)
                if side == "rear":
                    L = L[::-1]
                s = rcwa_structure(Structure(L), size, dict(o, wavelength=np.array(c.wl)), c.inc if side == "front" else c.sub, c.sub if side == "front" else c.inc)
                oo = dict(o)
                oo.update(wavelength=np.array([c.wl[w]]), theta_in=av[j, 1], phi_in=av[j, 2], orders=c.orders, A_per_order=False)
                # channels of the rear side: same azimuth, polar angle mirrored
                col = j
                if side == "rear":
                    k = [x for x in range(n, 2 * n) if abs(math.pi - av[x, 1] - av[j, 1]) < 1e-9 and abs(av[x, 2] - av[j, 2]) < 1e-9]
                    col = k[0] - n
                r = s.calculate(oo)
                m = full[w][:, col]
                R, T = (m[:n].sum(), m[n:].sum()) if side == "front" else (m[n:].sum(), m[:n].sum())
                a = np.asarray(r["A_per_layer"])[0]
                out.append(dict(kind="matrix", error="", side=side, mR=fx(R), mT=fx(T), mA=fxl(A[w][:, col]), R=fx(r["R"][0]), T=fx(r["T"][0]),
                                A=fxl(a if side == "front" else a[::-1]), **what))
    except Exception as ex:
        import traceback
        out.append(dict(kind="matrix", error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-800:], **what))
    return out


def planar(t):
    """laterally uniform structures against the multilayer oracle"""
    from rayflare.options import default_options
    from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
    from solcore.structure import Structure, Layer
    rng = random.Random(t["seed"])
    ev = dict(kind="calc", error="", shape=t["shape"], seed=t["seed"])
    try:
        st = tl.Stack(t["shape"], rng)
        wls = [rng.uniform(350e-9, 1100e-9) for _ in range(rng.choice([1, 2]))]
        th = tl.choose_angle(st, wls, rng)
        if th is None or st.par[0][2] > 0:
            return None
        o = default_options()
        o.wavelength, o.theta_in, o.phi_in, o.orders, o.RCWA_method = np.array(wls), th, rng.uniform(-3, 6), rng.choice([1, 1, 5]), "Inkstone"
        o.A_per_order, o.parallel = False, False
        lay = st.layers()
        for j, l in enumerate(lay):
            # shapes of the same material as their surroundings are no shapes
            l.geometry = [dict(type="circle", mat=l.material, center=(0, 0), radius=80)] if rng.random() < .3 else []
        s = rcwa_structure(Structure(lay), ((331, 0), (0, 331)), o, st.mat(0), st.mat(len(st.cls) - 1))
        res = {}
        for pol in "spu":
            o.pol = pol
            r = s.calculate(o)
            res[pol] = tl.enc(dict(r, A=np.asarray(r["A_per_layer"]).sum(1) if lay else np.zeros(len(wls))))
        ev.update(res=res, med=[st.med(w) for w in wls], kx=[st.kx(w, th) for w in wls], tol=300, normal=th == 0.0, theta=th, ltol=5)
    except Exception as ex:
        import traceback
        ev["error"] = "%s: %s" % (type(ex).__name__, str(ex)[:200])
        ev["where"] = traceback.format_exc()[-800:]
    return ev


def task(t):
    import mat
    mat.quiet()
    return [f(x) for f, x in zip([{"g": group, "m": matrix, "p": planar}[x["do"]] for x in t], t)]


def run(ctx):
    rng = random.Random(ctx.seed * 91 + 18)
    ctx.model("MCGrating", CFG % (2, 4 if ctx.thorough else 3, "FALSE", "FALSE"), timeout=800)
    ctx.model("MCGrating", CFG % (1, 1, "FALSE", "TRUE"))
    hists = {n: ctx.generate("MCGrating", CFG % (n, 3, "TRUE", "FALSE")) for n in (1, 2)}
    for h in hists.values():
        h.sort(key=repr)
    k = 6 if ctx.thorough else 1
    items = []
    for i in range(90 * k):
        nl = rng.choice([1, 2])
        items.append(dict(do="g", nl=nl, hists=rng.sample(hists[nl], 8), seed=rng.randrange(10**9)))
    for i in range(40 * k):
        items.append(dict(do="m", seed=rng.randrange(10**9), dir=ctx.scratch("rc")))
    sh = tl.shapes(ctx, 3, "damz")
    sh = [s for s in sh if s["ls"]]      # (Inkstone needs a layer)
    for s in [rng.choice(sh) for _ in range(240 * k)]:
        items.append(dict(do="p", shape=s, seed=rng.randrange(10**9)))
    rng.shuffle(items)
    tasks = [items[i:i + 5] for i in range(0, len(items), 5)]
    groups, plan, mats = [], [], []
    for t, r in zip(tasks, ctx.pmap(task, tasks, timeout=300)):
        if isinstance(r, dict):
            groups.append([dict(kind="var", error=r["error"])])
            continue
        for x, y in zip(t, r):
            if x["do"] == "p":
                plan += [y] if y else []
            elif x["do"] == "m":
                mats += y
            else:
                groups.append(y)
    ctx.notes["situations"] = len(groups)
    ctx.validate("GratingTrace", [e for g in groups for e in g], groups=groups)
    ctx.validate("GratingTrace", mats)
    ctx.validate("TmmTrace", plan)
