"""C17: sessions of edits and calculations generated by MCRcwa, replayed on real rcwa_structure objects; every result is
compared (in RcwaTrace) with that of an object made freshly for the structure and options the specification says apply."""
import random, copy, math
import numpy as np
from vlib import fx, fxl

CFG = """CONSTANTS MaxLen = %d
 Opts = {1, 2, 3}
 Mode = "%s"
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS AsFresh Physical Emit
"""


class World:
    """concrete structures and options for the version numbers of the specification"""

    def __init__(self, seed):
        from mat import Mat
        rng = self.rng = random.Random(seed)
        u = rng.uniform

        def disp(name, n, k):
            a, b = u(.1, .6), u(-.3, .3)
            return Mat(lambda w: n + a * (w * 1e6 - .6), lambda w: np.maximum(k * (1 + b * (w * 1e6 - .6)), 0), name)
        self.nl = rng.choice([1, 2, 3])
        self.at = rng.randrange(self.nl)
        self.mats = [disp("L%d" % i, u(1.2, 2.5), rng.choice([0, u(.02, .5)])) for i in range(self.nl)]
        self.shape_mat, self.shape2 = disp("shp", u(1.3, 3.5), rng.choice([0, u(.05, .5)])), disp("shq", u(1.3, 3), .1)
        self.air, self.sub = Mat(u(1, 1.4), 0, "inc"), disp("sub", u(1.3, 3), rng.choice([0, .1]))
        self.w = {v: [rng.randint(4, 40) * 5 for _ in range(self.nl)] for v in (1, 2)}
        p = rng.randint(300, 600)
        self.z = {1: ((p, 0), (0, rng.choice([p, p + 40]))), 2: ((p + 60, 0), (rng.choice([0, 50]), p + 30))}
        kind = self.kind = rng.choice(["circle", "rectangle", "ellipse", "polygon", "two", "retype"])
        c = (rng.choice([0, 30]), rng.choice([0, -20]))
        r = p // 5
        if kind in ("circle", "two"):
            g1 = dict(type="circle", mat=self.shape_mat, center=c, radius=r)
            e = rng.choice([{"radius": r + 25}, {"center": (c[0] + 25, c[1] - 15)}])
            back = {k: g1[k] for k in e}
        elif kind == "rectangle":
            g1 = dict(type="rectangle", mat=self.shape_mat, center=c, halfwidths=(r, r + 20), angle=0)
            e = rng.choice([{"angle": 25}, {"halfwidths": (r + 30, r)}])
            back = {k: g1[k] for k in e}
        elif kind == "ellipse":
            g1 = dict(type="ellipse", mat=self.shape_mat, center=c, halfwidths=(r, r + 20), angle=10)
            e = rng.choice([{"angle": 40}, {"halfwidths": (r + 30, r), "center": (0, 0)}])
            back = {k: g1[k] for k in e}
        elif kind == "polygon":
            v = [(-r, -r), (r, -r), (0, r + 10)]
            g1 = dict(type="polygon", mat=self.shape_mat, center=c, vertices=v)
            e = rng.choice([{"vertices": [(-r, -r), (r + 20, -r), (10, r)]}, {"center": (c[0] + 20, c[1])}])
            back = {k: g1[k] for k in e}
        else:
            g1 = dict(type="circle", mat=self.shape_mat, center=c, radius=r)
            e = {"type": "rectangle", "halfwidths": (r, r - 10), "angle": 15}
            back = {"type": "circle"}
        self.g1, self.edit = g1, {1: back, 2: e}
        self.extra = dict(type="circle", mat=self.shape2, center=(p // 2, p // 2), radius=r // 2)
        self.aslist = rng.random() < .3
        n1 = rng.choice([1, 2])
        wa = [u(450, 900) * 1e-9 for _ in range(n1)]
        wb = rng.choice([[u(450, 900) * 1e-9 for _ in range(n1)], [u(450, 900) * 1e-9 for _ in range(3 - n1)], wa[::-1] if n1 == 2 else [wa[0] * 1.07], wa[:1] + [wa[0] * 1.2]])
        base = dict(wavelength=wa, theta_in=rng.choice([0, .4]), phi_in=rng.choice([0, .3]), pol=rng.choice("spu"), orders=rng.choice([5, 9]),
                    depth_spacing=rng.choice([8.31, 17.13]) * 1e-9)
        ch = rng.choice([dict(theta_in=.7), dict(phi_in=.9, theta_in=.4), dict(pol="s" if base["pol"] != "s" else "p"), dict(orders=13), dict(pol=(.6, .8)),
                         dict(depth_spacing=13.37e-9)])
        self.o = {1: base, 2: dict(base, wavelength=wb), 3: dict(base, **ch)}

    def geometry(self, g):
        s = dict(self.g1)
        if g == 2:
            s.update(self.edit[2])
        return [s] + ([dict(self.extra)] if self.kind == "two" else [])

    def options(self, o, into=None):
        from rayflare.options import default_options
        s = default_options() if into is None else into
        for k, v in self.o[o].items():
            s[k] = np.array(v) if k == "wavelength" else v
        s["RCWA_method"], s["A_per_order"], s["parallel"] = "Inkstone", False, False
        return s

    def layers(self, w, g):
        from solcore.structure import Layer, Structure
        L = []
        for i in range(self.nl):
            geo = self.geometry(g) if i == self.at else []
            if self.aslist and i % 2 == 0:
                # n and k at given wavelengths
                wl = np.linspace(400, 1100, 8) * 1e-9
                L.append([self.w[w][i], wl, self.mats[i].n(wl), self.mats[i].k(wl), geo])
            else:
                L.append(Layer(self.w[w][i] * 1e-9, self.mats[i], geometry=geo))
        return L

    def make(self, layers, z, o):
        from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
        return rcwa_structure(layers, self.z[z], o, self.air, self.sub)

    def look(self, s, kind, o):
        """(function returning the recorded values of the result object, reflection, transmission and absorption)"""
        def rta(r):
            return fxl(r["R"]) + fxl(r["T"]) + fxl(np.asarray(r["A_per_layer"]).ravel())
        if kind == "calc":
            r = s.calculate(o)
            return (lambda: rta(r)), rta(r)
        if kind == "prof":
            r = s.calculate_profile(o)
            return (lambda: fxl(np.asarray(r["profile"]).ravel() * 1000)), rta(r)
        wl = o["wavelength"][-1] * 1e9
        li = self.at + 1
        f = s.get_fields(li, wl, o, depth=2.0, n_points=3, plot=False)
        eps = s.get_fourier_epsilon(li, wl, o, n_points=4, plot=False)
        return (lambda: fxl(np.asarray(f[4]).ravel()) + fxl(np.asarray(f[5]).ravel()) + fxl(np.asarray(eps[2]).ravel()) + fxl(np.asarray(eps[3]).ravel())), []


def session(t):
    """events of one session (a history of MCRcwa)"""
    out = [dict(op="start", error="", seed=t["seed"])]
    try:
        W = World(t["seed"])
        # what a fresh object returns in every situation the session can be in
        st, need = [[1, 1, 1]], []
        for h in t["hist"]:
            i = h["i"] - 1
            if h["op"] == "twin":
                st.append([1, 1, 1])
            elif h["op"] in ("widths", "size", "geom"):
                k = ("widths", "size", "geom").index(h["op"])
                st[i][k] = 3 - st[i][k]
            else:
                need += [tuple(st[i]) + (h["o"], h["op"]), tuple(st[i]) + (h["o"], "calc")]
        for w, z, g, o, kind in sorted(set(need)):
            op = W.options(o)
            r, _ = W.look(W.make(W.layers(w, g), z, op), kind, op)
            out.append(dict(op="fresh", error="", w=w, z=z, g=g, o=o, what=kind, res=r()))
        shared = W.options(1)
        layers = W.layers(1, 1)
        objs, ver, held = [W.make(layers, 1, shared)], [[1, 1, 1]], []
        for h in t["hist"]:
            i = h["i"] - 1
            ev = dict(op=h["op"], i=h["i"], o=h["o"], error="")
            if h["op"] == "twin":
                objs.append(W.make(layers, 1, W.options(1)))
                ver.append([1, 1, 1])
            elif h["op"] == "widths":
                ver[i][0] = 3 - ver[i][0]
                objs[i].set_widths(W.w[ver[i][0]])
            elif h["op"] == "size":
                ver[i][1] = 3 - ver[i][1]
                objs[i].set_size(W.z[ver[i][1]])
            elif h["op"] == "geom":
                ver[i][2] = 3 - ver[i][2]
                objs[i].edit_geom_list(W.at + 1, 0, dict(W.edit[ver[i][2]]))
            else:
                # the options object is used again and changed in between, as in interactive use
                f, rta = W.look(objs[i], h["op"], W.options(h["o"], shared))
                held.append(f)
                ev.update(res=f(), rta=rta)
            out.append(ev)
        out.append(dict(op="end", error="", again=[f() for f in held]))
    except Exception as ex:
        import traceback
        out.append(dict(op="end", error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-800:], hist=t["hist"], seed=t["seed"]))
    return out


def task(t):
    import mat
    mat.quiet()
    return [session(x) for x in t]


def run(ctx):
    rng = random.Random(ctx.seed * 77 + 17)
    n = 4 if ctx.thorough else 3
    ctx.model("MCRcwa", CFG % (n, "ok", "FALSE"))
    for m in ("stale", "resetw", "reuse", "shared"):
        ctx.model("MCRcwa", (CFG % (3, m, "FALSE")).replace("Physical ", ""), expect_violation="AsFresh")
    hists = ctx.generate("MCRcwa", CFG % (3, "ok", "TRUE"), workers=1)
    hists.sort(key=repr)
    # sessions with more than one look, or an edit before the last one, say most
    good = [h for h in hists if any(x["op"] != "twin" for x in h[:-1])]
    rng.shuffle(good)
    todo = good[:2400 if ctx.thorough else 480]
    ops = ["widths", "size", "geom", "calc", "calc", "prof", "prof", "fields", "twin"]
    for _ in range(400 if ctx.thorough else 80):
        h, k = [], 1
        for _ in range(rng.randint(6, 16)):
            op = rng.choice(ops)
            if op == "twin":
                if k == 2:
                    continue
                k = 2
                h.append(dict(op=op, i=2, o=0))
            else:
                h.append(dict(op=op, i=rng.randint(1, k), o=0 if op in ops[:3] else rng.choice([1, 2] if op == "fields" else [1, 2, 3])))
        todo.append(h)
    items = [dict(hist=h, seed=rng.randrange(10**9)) for h in todo]
    tasks = [items[i:i + 5] for i in range(0, len(items), 5)]
    groups = []
    for r in ctx.pmap(task, tasks, timeout=300):
        groups += [[dict(op="end", error=r["error"])]] if isinstance(r, dict) else r
    ctx.notes["sessions"] = len(groups)
    ctx.validate("RcwaTrace", [e for g in groups for e in g], groups=groups)
