"""Ray-traced structures of the classes listed by MCRtShapes, with random contents."""
import math, random
import numpy as np

SHAPES = """CONSTANTS MaxN = %d
 Textures = {%s}
 Optics = {%s}
 Bulks = {%s}
INIT Init
NEXT Next
INVARIANTS Alternate Emit
"""


def shapes(ctx, maxn, tex, opt, bulks):
    q = lambda s: ", ".join('"%s"' % c for c in s)
    return ctx.generate("MCRtShapes", SHAPES % (maxn, q(tex), q(opt), q(bulks)))


def texture(t, rng, **kw):
    from rayflare import textures as tx
    if t == "p":
        return tx.planar_surface(**kw)
    if t == "u":
        return tx.regular_pyramids(rng.choice([20., 45., 54.7, 60.]), True, 1, **kw)
    if t == "d":
        return tx.regular_pyramids(rng.choice([20., 45., 54.7]), False, 1, **kw)
    if t == "v":
        return tx.V_grooves(rng.choice([20., 40., 55.]), 1, rng.choice(["x", "y"]), **kw)
    if t == "r":
        return tx.rough_planar_surface(1, 0.2, 25, True, **kw)
    if t == "h":
        return tx.hemisphere_surface(1, 9, 0.4, 0, **kw)
    raise KeyError(t)


class Stack:
    """shape: surf [[texture, optics]..], bulk [class..]"""

    def __init__(self, shape, rng, kscale=1.0):
        from mat import Mat
        from solcore.structure import Layer
        u = rng.uniform
        self.shape = shape
        N = self.N = len(shape["surf"])
        self.n = [u(1, 1.3)] + [u(1.3, 2.4) for _ in range(N - 1)] + [u(1, 2.0)]
        self.w = [round(u(50, 400)) * 1e-6 for _ in range(N - 1)]
        od = {"t": 0, "w": u(.05, .6), "o": u(2, 9)}
        self.k = [0.0] + [od[b] * kscale * 600e-9 / (4 * math.pi * w) for b, w in zip(shape["bulk"], self.w)] + [0.0]
        self.mats = [Mat(n, k, "m%d_%.4f_%.3g" % (i, n, k)) for i, (n, k) in enumerate(zip(self.n, self.k))]
        self.clear = [b == "t" for b in shape["bulk"]]
        self.lay, self.lossless, self.coh = [], [], []
        for t, o in shape["surf"]:
            if o == "F":
                self.lay.append(None)
                self.lossless.append([])
                self.coh.append(None)
                continue
            m = rng.choice([1, 2, 3])
            ll = [o == "N" or rng.random() < .3 for _ in range(m)]
            if o == "L":
                ll[rng.randrange(m)] = False
            self.lay.append([(u(20, 200), u(1.2, 3), 0.0 if z else u(.05, 1)) for z in ll])
            self.lossless.append(ll)
            self.coh.append(None)
        self.tex_seed = rng.randrange(10**9)

    def layers(self, s):
        from mat import Mat
        from solcore.structure import Layer
        return [Layer(w * 1e-9, Mat(n, k, "L%.4f_%.4f" % (n, k))) for w, n, k in self.lay[s]]

    def textures(self, prof=None):
        out = []
        for s, (t, o) in enumerate(self.shape["surf"]):
            rng = random.Random(self.tex_seed + s)
            st = np.random.get_state()
            np.random.seed(self.tex_seed % 2**31 + s)
            kw = {}
            if self.lay[s] is not None:
                kw = dict(interface_layers=self.layers(s), name="s%d" % s)
                if prof and prof.get(s):
                    kw["prof_layers"] = prof[s]
            out.append(texture(t, rng, **kw))
            np.random.set_state(st)
        return out

    @property
    def tmm(self):
        return any(l is not None for l in self.lay)

    def make(self, options, savedir, prof=None, overwrite=True):
        from rayflare.ray_tracing import rt_structure
        return rt_structure(self.textures(prof), self.mats[1:-1], self.w, self.mats[0], self.mats[-1], options, self.tmm, savedir, overwrite)


def options(wls, **kw):
    from rayflare.options import default_options
    o = default_options()
    o.wavelength = np.array(wls)
    o.parallel = False
    o.project_name = "rt"
    o.lookuptable_angles = 40
    o.depth_spacing_bulk = 5e-6
    o.depth_spacing = 5e-9
    for k, v in kw.items():
        o[k] = v
    return o
