"""Every way of calculating something with RayFlare, over one seeded set of materials, layers, textures and options.
Shared by the checks on options (C19), wavelengths (C20) and untouched inputs (C24)."""
import os, math, random, hashlib
from collections import OrderedDict
import numpy as np
from vlib import fx, fxl

DET = ["mxlamb", "tmm", "tmmprof", "inc", "incprof", "nbr", "rcwa", "rcwaprof", "fields", "lookup", "mxtmm", "mxrcwa", "mxmirror", "gen", "genrcwa", "genmx"]
RAN = ["mxrtf", "mxrttmm", "rt", "rtprof", "rttmm"]
ALL = DET + RAN
U = 1e6


def snap(x, path="", out=None, seen=None, wls=np.array([4.5e-7, 6e-7, 8e-7])):
    """{path: digest} of everything that can be reached through public attributes, items and arrays"""
    import xarray as xr
    from mat import Mat
    out = {} if out is None else out
    seen = set() if seen is None else seen

    def put(p, b):
        out[p] = hashlib.sha1(b if isinstance(b, bytes) else repr(b).encode()).hexdigest()[:12]
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes, np.generic)):
        put(path, x)
        return out
    if isinstance(x, np.ndarray) and x.dtype != object:
        put(path, repr((x.shape, str(x.dtype))).encode() + np.ascontiguousarray(x).tobytes())
        return out
    if id(x) in seen:
        return out
    seen.add(id(x))
    if isinstance(x, Mat):
        put(path, (x.name, np.asarray(x.n(wls)).tolist(), np.asarray(x.k(wls)).tolist()))
    elif isinstance(x, (xr.DataArray, xr.Dataset)):
        for n, v in ([("", x)] if isinstance(x, xr.DataArray) else sorted(x.items())) + sorted(x.coords.items()):
            put(path + "/" + str(n), repr((v.dims, v.shape)).encode() + np.ascontiguousarray(v.values).tobytes())
    elif isinstance(x, dict):
        put(path + "#keys", sorted(map(str, x)))
        for k in sorted(x, key=str):
            snap(x[k], path + "[%s]" % k, out, seen)
    elif isinstance(x, (list, tuple, np.ndarray)):
        put(path + "#len", len(x))
        for i, v in enumerate(x):
            snap(v, path + "[%d]" % i, out, seen)
        if hasattr(x, "__dict__"):
            for k in sorted(x.__dict__):
                if not k.startswith("_"):
                    snap(x.__dict__[k], path + "." + k, out, seen)
    elif callable(x):
        pass
    elif hasattr(x, "__dict__"):
        for k in sorted(x.__dict__):
            if not k.startswith("_"):
                snap(x.__dict__[k], path + "." + k, out, seen)
    return out


class World:
    def __init__(self, seed, rays=64, coarse=False):
        """coarse: materials for which the light goes elsewhere at every wavelength (through, into the bulk, back), and
        fractions of the light instead of detailed results of ray tracing"""
        from mat import Mat
        from solcore.structure import Layer
        self.seed = seed
        rng = self.rng = random.Random(seed)
        u = rng.uniform
        # wavelengths, in no particular order
        w = [450e-9, 560e-9, 700e-9, 880e-9]
        rng.shuffle(w)
        self.wl = {i + 1: x for i, x in enumerate(w)}

        def disp(name, n, k, a=None):
            # strongly different at the different wavelengths
            a = [u(-.35, .35) for _ in range(4)] if a is None else a
            b = [u(.2, 1.8) for _ in range(4)]
            x = sorted(w)
            return Mat(lambda l: n + np.interp(l, x, a), lambda l: k * np.interp(l, x, b), name)
        self.front = [disp("F%d" % i, u(1.5, 2.4), k) for i, k in enumerate((rng.choice([0, .03]), u(.05, .3)))]
        self.back = [disp("B0", u(1.4, 2.8), u(.02, .3))]
        self.bulk = disp("bulk", u(1.6, 3.2), .004)
        self.inc, self.sub = Mat(1.0, 0, "inc"), disp("sub", u(1.2, 1.6), 0)
        self.shape = disp("shape", u(1.8, 3), u(0, .2))
        self.coarse = coarse
        if coarse:
            x = sorted(w)
            cl = [0, 1, 2, 3]
            rng.shuffle(cl)

            def four(name, n, k):
                return Mat(lambda l: np.interp(l, x, [n[c] for c in cl]), lambda l: np.interp(l, x, [k[c] for c in cl]), name)
            self.front = [four("F%d" % i, (1.05, 1.1, .1, 2), (0, 0, 6, .4 * i)) for i in range(2)]
            self.bulk = four("bulk", (1.05, 1.1, .1, 2.2), (0, .3, 7, .004))
            self.sub = four("sub", (1.05, 1.1, 1.1, 1.5), (0, 0, 0, 0))
        self.lw = [rng.randint(6, 20) * 5 for _ in range(2)]
        self.bw = rng.randint(6, 20) * 5
        self.geo = [dict(type="circle", mat=self.shape, center=(0, 0), radius=rng.choice([60, 110]))]
        # (the same layer objects in every structure)
        self.lfront = [Layer(t * 1e-9, m) for t, m in zip(self.lw, self.front)]
        self.lback = [Layer(self.bw * 1e-9, self.back[0])]
        self.lshape = [Layer(self.lw[0] * 1e-9, self.front[0], geometry=self.geo), Layer(self.lw[1] * 1e-9, self.front[1], geometry=[])]
        g = np.linspace(4e-7, 1e-6, 60)
        # n and k of one layer as numbers
        self.lnum = [self.lshape[0], [self.lw[1], float(self.front[1].n(600e-9)), float(self.front[1].k(600e-9)), []]]
        self.llist = [[self.lw[0], g * 1e9, np.asarray(self.front[0].n(g)), np.asarray(self.front[0].k(g))], self.lfront[1]]
        self.period = rng.choice([350, 420])
        self.text = rng.choice(["planar", "pyr"])
        n = 4
        self.base = dict(theta_in=rng.choice([0, .3, .6]), phi_in=rng.choice([0, .3]), pol=rng.choice("spu"), orders=5, n_theta_bins=3, nx=n, ny=n,
                         n_rays=rays, parallel=False, lookuptable_angles=6, only_incidence_angle=False, I_thresh=1e-3, depth_spacing=9.7e-9,
                         depth_spacing_bulk=.73e-6, bulk_profile=True, phi_symmetry=math.pi / 2, c_azimuth=.25, random_ray_position=False,
                         avoid_edges=False, randomize_surface=False, random_ray_angles=False, coherent=True, coherency_list=None,
                         RCWA_method="Inkstone", A_per_order=False, n_jobs=1, project_name="proj")
        self.held = None
        self.textures = {}
        self.structs = {}
        self.objs = {}

    # options ------------------------------------------------------------------------------------------------------------
    def special(self, entry):
        """values of options for this kind of calculation (apart from the wavelengths)"""
        o = dict(self.base)
        if entry in ("inc", "incprof"):
            # (the profile of a coherent layer next to an incoherent one is left to C13: rounding errors in solcore)
            o.update(coherent=False, coherency_list=["c", "i"] if entry == "inc" else ["i", "i"])
        if entry in DET and (entry.startswith("mx") or entry == "genmx"):
            # (passes end when the light left is below the threshold at all wavelengths)
            o.update(I_thresh=1e-9)
        if entry == "mxrcwa":
            o.update(n_theta_bins=2, orders=1)
        return o

    def blank(self, form, values):
        from solcore.state import State
        from rayflare.options import default_options
        if form == "dict":
            return dict(values)
        if form == "odict":
            return OrderedDict(sorted(values.items()))
        o = State() if form == "State" else default_options()
        for k, v in values.items():
            if form == "attr":
                setattr(o, k, v)
            else:
                o[k] = v
        return o

    def lam(self, ids):
        return np.array([self.wl[i] for i in ids])

    # structures ---------------------------------------------------------------------------------------------------------
    def texture(self, i, kind=None, layers=None, prof=None):
        """the textures of face i (kept: the same objects are used for every structure)"""
        from rayflare import textures as tx
        key = (i, kind, layers is not None, prof is not None)
        if key not in self.textures:
            kw = {}
            if layers is not None:
                kw = dict(interface_layers=layers, name="s%d" % i)
                if prof is not None:
                    kw["prof_layers"] = prof
            self.textures[key] = tx.regular_pyramids(50, i == 0, 1, **kw) if kind == "pyr" else tx.planar_surface(**kw)
        return self.textures[key]

    def structure(self, entry):
        from rayflare.structure import Interface, BulkLayer, Structure
        if entry in self.structs:
            return self.structs[entry]
        name = lambda i: "%s%d" % (entry, i)
        if entry == "mxrcwa":
            f = Interface("RCWA", layers=self.lshape, name=name(0), coherent=True, d_vectors=((self.period, 0), (0, self.period)), rcwa_orders=1, prof_layers=[1, 2])
            b = Interface("Mirror", layers=[], name=name(1))
        elif entry == "mxrtf":
            f = Interface("RT_Fresnel", layers=[], texture=self.texture(0, self.text), name=name(0), coherent=True)
            b = Interface("RT_Fresnel", layers=[], texture=self.texture(1), name=name(1), coherent=True)
        elif entry == "mxrttmm":
            f = Interface("RT_TMM", layers=self.lfront, texture=self.texture(0, self.text), name=name(0), coherent=True, prof_layers=[1, 2])
            b = Interface("TMM", layers=self.lback, name=name(1), coherent=True, prof_layers=[1])
        else:
            f = Interface("TMM", layers=self.lfront, name=name(0), prof_layers=[1, 2], **(dict(coherent=False, coherency_list=["i", "i"]) if self.seed % 2 else dict(coherent=True)))
            b = Interface("TMM", layers=self.lback, name=name(1), coherent=True, prof_layers=[1]) if entry == "mxtmm" else \
                Interface("Mirror" if entry == "mxmirror" else "Lambertian", layers=[], name=name(1))
        self.structs[entry] = Structure([f, BulkLayer(8e-6, self.bulk, name="bulk"), b], incidence=self.inc, transmission=self.sub)
        return self.structs[entry]

    def hold(self, r):
        """remember the result as it is when it is returned"""
        if self.held is not None:
            self.held.append((r, snap(r)))
        return r

    # calculations -------------------------------------------------------------------------------------------------------
    def run(self, entry, o, loc, keep=False, read=False):
        """result of a calculation: wavelengths in the order listed (in picometres), values for each of them.
        keep: use the structure object of an earlier calculation again; read: use the matrices and tables stored before"""
        random.seed(self.seed)
        np.random.seed(self.seed % 2**32)
        S = self.objs if keep else {}
        wls = None
        if entry in ("tmm", "tmmprof", "inc", "incprof", "nbr", "gen"):
            from rayflare.transfer_matrix_method import tmm_structure
            k = "nbr" if entry == "nbr" else "tmm"
            if k not in S:
                S[k] = tmm_structure(self.llist if self.seed % 3 == 0 else self.lfront, self.inc, self.sub, **(dict(no_back_reflection=True) if k == "nbr" else {}))
            r = self.hold(S[k].calculate(o, profile=entry in ("tmmprof", "incprof", "gen")))
            per = [np.asarray(r["R"])[:, None], np.asarray(r["T"])[:, None], np.asarray(r["A"])[:, None], np.asarray(r["A_per_layer"])]
            if entry in ("tmmprof", "incprof"):
                per.append(np.asarray(r["profile"]) * 100)
            if entry == "gen":
                from rayflare.utilities import make_absorption_function
                pos, f = make_absorption_function(r, S[k], o)
                z = np.linspace(0, max(pos), 7)
                per = [np.asarray(f(z)).reshape(len(per[0]), -1) * 1e-7]
        elif entry in ("rcwa", "rcwaprof", "fields", "genrcwa"):
            from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
            if "rcwa" not in S:
                # (the options for making the structure need not be those of the calculation)
                oc = o if self.seed % 3 == 0 else self.blank("State", dict(self.base, wavelength=self.lam([4])))
                S["rcwa"] = rcwa_structure(self.lnum if self.seed % 3 == 1 else self.lshape, ((self.period, 0), (0, self.period)), oc, self.inc, self.sub)
            s = S["rcwa"]
            if entry == "fields":
                ws = np.atleast_1d(o["wavelengths"] if "wavelengths" in o else o["wavelength"])
                per = []
                for w in ws:
                    f = s.get_fields(1, w * 1e9, o, depth=3.0, n_points=3, plot=False)
                    e = s.get_fourier_epsilon(1, w * 1e9, o, n_points=3, plot=False)
                    per.append(np.concatenate([np.asarray(x).ravel() for x in (f[4], f[5], e[2], e[3])]))
                per = [np.array(per)]
            else:
                r = self.hold(s.calculate(o) if entry == "rcwa" else s.calculate_profile(o))
                per = [np.asarray(r["R"])[:, None], np.asarray(r["T"])[:, None], np.asarray(r["A_per_layer"])]
                if entry == "genrcwa":
                    from rayflare.utilities import make_absorption_function
                    pos, f = make_absorption_function(r, s, o)
                    per = [np.round(np.asarray(f(np.linspace(0, max(pos), 7))).reshape(len(per[0]), -1) * 1e-8, 4)]
                if entry == "rcwaprof":
                    # (the solver differentiates over 1e-9 nm: only a few digits)
                    per.append(np.round(np.asarray(r["profile"]) * 10, 4))
        elif entry == "lookup":
            from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
            ds = make_TMM_lookuptable(self.lfront, self.inc, self.bulk, "lk", o, loc, coherent=True, prof_layers=[1, 2], overwrite=not read)
            wls = ds["wl"].values
            f = lambda n: ds[n].transpose("wl", ...).values.reshape(len(wls), -1)
            per = [f("R"), f("T"), f("Alayer"), f("Aprof") * 100]
        elif entry.startswith("mx") or entry == "genmx":
            from rayflare.matrix_formalism import process_structure, calculate_RAT
            s = self.structure("mxtmm" if entry == "genmx" else entry)
            process_structure(s, o, loc, overwrite=not read)
            r = self.hold(calculate_RAT(s, o, loc))
            RAT = r[0]
            wls = RAT["wl"].values
            per = [RAT[v].transpose("wl", ...).values.reshape(len(wls), -1) for v in ("R", "T", "A_bulk") if v in RAT]
            if entry == "genmx":
                from rayflare.utilities import make_absorption_function
                pos, f = make_absorption_function(r, s, o)
                per = [np.asarray(f(np.linspace(0, max(pos), 9))).reshape(len(wls), -1) * 1e-7]
            elif len(r) == 4:
                if not (self.coarse and entry in RAN):
                    per += [np.asarray(p) * 1e-6 for p in r[3] if np.ndim(p) == 2 and len(p) == len(wls)]
                for p in list(r[2]):
                    # the profiles list their wavelengths themselves
                    if hasattr(p, "coords") and "wl" in p.coords and not np.array_equal(p["wl"].values, wls):
                        wls = p["wl"].values
                    if self.coarse and entry in RAN:
                        continue
                    if p is not None and hasattr(p, "dims") and "wl" in p.dims:
                        per.append(p.transpose("wl", ...).values.reshape(len(wls), -1))
        else:
            from rayflare.ray_tracing import rt_structure
            if entry == "rttmm":
                # (contains the lookup tables of these options)
                t = [self.texture(0, self.text, self.lfront, [1, 2]), self.texture(1)]
                if "rttmm" not in S:
                    S["rttmm"] = rt_structure(t, [self.bulk], [8e-6], self.inc, self.sub, o, True, loc, not read)
                s = S["rttmm"]
            else:
                if "rt" not in S:
                    S["rt"] = rt_structure([self.texture(0, self.text), self.texture(1, "pyr")], [self.bulk], [8e-6], self.inc, self.sub)
                s = S["rt"]
            r = self.hold(s.calculate(o))
            a = lambda x: np.asarray(x).reshape(len(r["R"]), -1)
            per = [a(r["R"]), a(r["T"]), a(r["A_per_layer"])]
            if entry == "rttmm":
                per += [np.asarray(r["A_per_interface"][0]).reshape(len(r["R"]), -1)]
            if entry == "rtprof" and self.coarse:
                # (per nm; the fractions absorbed in each third of the bulk)
                x = a(r["profile"]) * o["depth_spacing_bulk"] * 1e9
                c = np.concatenate([np.zeros((len(x), 1)), np.cumsum((x[:, 1:] + x[:, :-1]) / 2, 1)], 1)
                m = c.shape[1] - 1
                per.append(np.stack([c[:, m // 3], c[:, 2 * m // 3] - c[:, m // 3], c[:, m] - c[:, 2 * m // 3]], 1))
            elif entry == "rtprof":
                per.append(a(r["profile"]) * 100)
            wls = r["wl"] if "wl" in r else None
        n = len(per[0])
        assert all(len(p) == n for p in per), "results for different numbers of wavelengths: %r" % ([len(p) for p in per],)
        per = [np.concatenate([np.real(np.asarray(p[i])).ravel() for p in per]) for i in range(n)]
        # (picometres; given in m or nm)
        return dict(wl=[round(float(x) * (1e12 if x < 1e-3 else 1e3)) for x in wls] if wls is not None else [], res=[fxl(p) for p in per])
