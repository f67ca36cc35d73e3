"""Random multilayer stacks of given shapes, as real rayflare/solcore objects and as media of the Tmm specification."""
import math, random
import numpy as np
from vlib import fx, fxl

SHAPES = """CONSTANTS MaxL = %d
 Classes = {%s}
INIT Init
NEXT Next
INVARIANTS Bounded Emit
"""
MODEL = """CONSTANTS MaxL = %d
 Coarse = %s
INIT Init
NEXT Next
INVARIANTS Good Splitting Inserting Reciprocal Normal Fresnel Tir Airy
"""


def shapes(ctx, maxl, classes="damzWD"):
    return ctx.generate("MCShapes", SHAPES % (maxl, ", ".join('"%s"' % c for c in classes)))


def medium(cls, rng):
    """(n at 600 nm, slope of n, k at 600 nm, slope of k, thickness in nm)"""
    u = rng.uniform
    if cls == "v": return (1.0, 0, 0, 0, 0)
    if cls == "g": return (u(1.3, 3.6), u(-.2, .2), 0, 0, 0)
    if cls == "x": return (u(0.5, 4), u(-.1, .1), u(0.3, 4), u(-.1, .1), 0)
    if cls == "d": return (u(1.2, 3.8), u(-.3, .3), 0, 0, u(10, 400))
    if cls == "z": return (u(1.2, 3.8), u(-.3, .3), u(0, 0.5), 0, 0)
    if cls == "a": return (u(1.2, 4.2), u(-.3, .3), u(0.05, 1.2), u(-.04, .04), u(10, 250))
    if cls == "m": return (u(0.2, 1.2), u(-.1, .1), u(2, 5), u(-.3, .3), u(3, 40))
    if cls == "W": return (u(1.7, 3.6), u(-.1, .1), u(2e-4, 1.5e-3), 0, u(2000, 9000))
    if cls == "D": return (u(1.7, 3.6), u(-.1, .1), 0, 0, u(2000, 9000))
    raise KeyError(cls)


class Stack:
    """media[0] and media[-1] are the half spaces; inc flags those which are incoherent"""

    def __init__(self, shape, rng, incoherent_in="WD"):
        self.cls = [shape["a"]] + list(shape["ls"]) + [shape["b"]]
        self.par = [medium(c, rng) for c in self.cls]
        self.inc = [c in incoherent_in for c in self.cls]
        self.ws = [p[4] for p in self.par[1:-1]]

    def nk(self, j, wl):
        n, a, k, b, _ = self.par[j]
        x = wl / 600e-9 - 1
        return n + a * x, max(k + b * x, 0.0)

    def mat(self, j):
        from mat import Mat
        n, a, k, b, _ = self.par[j]
        return Mat(lambda wl: n + a * (wl / 600e-9 - 1), lambda wl: np.maximum(k + b * (wl / 600e-9 - 1), 0.0), "m%d_%.6f_%.6f" % (j, n, k))

    def layers(self):
        from solcore.structure import Layer
        return [Layer(w * 1e-9, self.mat(j + 1)) for j, w in enumerate(self.ws)]

    @property
    def coherent(self):
        return not any(self.inc[1:-1])

    def coh(self):
        return ["i" if x else "c" for x in self.inc[1:-1]]

    def med(self, wl, rev=False):
        r = []
        for j in range(len(self.cls)):
            n, k = self.nk(j, wl)
            d = 0 if j in (0, len(self.cls) - 1) else self.ws[j - 1] / (wl * 1e9)
            r.append({"n": [fx(n), fx(k)], "d": fx(d), "inc": bool(self.inc[j])})
        return r[::-1] if rev else r

    def usable(self, wls, th, rev=False):
        """whether the oracle and solcore both describe this direction: no direction grazing in any medium, no total reflection
        at an exit medium behind absorbing layers, no evanescent waves in incoherent layers"""
        j0, jN = (len(self.cls) - 1, 0) if rev else (0, len(self.cls) - 1)
        if math.cos(th) < 0.12 or (rev and self.par[-1][2] > 0):
            return False
        absorbing = any(p[2] > 0 for p in self.par[1:-1])
        for wl in wls:
            kx = self.nk(j0, wl)[0] * math.sin(th)
            for j in range(len(self.cls)):
                n, k = self.nk(j, wl)
                if abs(complex(n, k) ** 2 - kx ** 2) < 0.08:
                    return False
                if k < 0.01 and kx > n:
                    if self.inc[j] or (j == jN):
                        return False
                    if j not in (j0, jN) and 2 * math.pi * self.par[j][4] / wl / 1e9 * math.sqrt(kx ** 2 - n ** 2) > 6:
                        return False
        return True

    def lost(self, wl, th, rev=False):
        """light evanescent in an incoherent layer: known finding of solcore"""
        kx = self.nk(len(self.cls) - 1 if rev else 0, wl)[0] * math.sin(th)
        return any(self.inc[j] and kx > 0.98 * self.nk(j, wl)[0] for j in range(len(self.cls)))

    def kx(self, wl, th, rev=False):
        return fx(self.nk(len(self.cls) - 1 if rev else 0, wl)[0] * math.sin(th))


def opts(wls, th, pol, st, force_list=False, **kw):
    o = dict(wavelength=np.array(wls), theta_in=th, pol=pol, depth_spacing=1e-9)
    if not st.coherent or force_list:
        o["coherent"], o["coherency_list"] = False, st.coh()
    else:
        o["coherent"] = True
    o.update(kw)
    return o


def enc(r):
    return dict(R=fxl(r["R"]), T=fxl(r["T"]), A=fxl(r["A"]), L=fxl(np.asarray(r["A_per_layer"])))


def choose_angle(st, wls, rng, rev=False):
    for _ in range(40):
        th = rng.choice([0.0, rng.uniform(0.02, 1.4), rng.uniform(0.02, 1.4), rng.uniform(0.02, 0.9)])
        if st.usable(wls, th, rev):
            return th
    return 0.0 if st.usable(wls, 0.0, rev) else None


def otol(st):
    return 200 if st.coherent else 2500


def pick(shapes_, n, rng, need=lambda s: True):
    s = [x for x in shapes_ if need(x)]
    rng.shuffle(s)
    return [s[i % len(s)] for i in range(n)]
