"""Structures, requests and files of the store, used by C08 and C09."""
import os, hashlib, math, shutil
import numpy as np

WL = np.array([500e-9, 700e-9])
SMALL = False      # smaller discretisation (C09)
NAMES = {"main": ("a", "b"), "loc": ("a", "b"), "proj": ("a", "b"), "names": ("c", "d"), "swap": ("b", "a")}


def options(meth, proj, **kw):
    o = dict(wavelength=WL.copy(), n_theta_bins=3, nx=2, ny=2, n_rays=64, project_name=proj, parallel=False, lookuptable_angles=6,
             only_incidence_angle=False, I_thresh=1e-3, depth_spacing=20e-9, depth_spacing_bulk=2e-6, bulk_profile=False, pol="u",
             theta_in=0.2, phi_in=0.1, phi_symmetry=math.pi / 2, c_azimuth=0.25, random_ray_position=False, avoid_edges=False,
             randomize_surface=False, random_ray_angles=False, coherent=True, coherency_list=None, RCWA_method="Inkstone", orders=1,
             A_per_order=False, n_jobs=1)
    if meth == "RCWA":
        o.update(n_theta_bins=2, wavelength=WL[:1].copy())
    if SMALL and meth == "RT_TMM":
        o.update(n_theta_bins=2, wavelength=WL[:1].copy(), lookuptable_angles=4)
    if SMALL and meth == "rts":
        o.update(wavelength=WL[:1].copy(), lookuptable_angles=4)
    o.update(kw)
    return o


LAY = {(1, 1): ((100, 1.5, 0.05), (60, 2.0, 0.01)), (1, 2): ((100, 2.4, 0.2), (60, 1.4, 0.1)),
       (2, 1): ((100, 1.9, 0.02), (60, 1.45, 0.3)), (2, 2): ((100, 3.2, 0.5), (60, 1.7, 0.0))}


# for ray tracing the four classes have to be far apart: transparent, absorbing, metallic, low index
LAY_RT = {(1, 1): ((100, 1.7, 0.0), (60, 2.0, 0.0)), (1, 2): ((100, 1.7, 1.0), (60, 1.4, 0.3)),
          (2, 1): ((100, 0.1, 7.0), (60, 1.3, 0.0)), (2, 2): ((100, 1.0, 0.0), (60, 1.0, 0.0))}


def layers(pos, v, rcwa=False, rt=False):
    import mat
    from solcore.structure import Layer
    out = []
    for w, n, k in (LAY_RT if rt else LAY)[(pos, v)]:
        l = Layer(w * 1e-9, mat.Mat(n, k, "L%g_%g" % (n, k)))
        if rcwa:
            l.geometry = []
        out.append(l)
    return out


def media(meth, v):
    import mat
    inc = mat.Mat(1.0, 0, "inc")
    trn = mat.Mat(1.3, 0, "trn")
    bulk = mat.Mat((1.2 if v == 1 else 6.0) if meth == "RT_Fresnel" else 3.0, 1e-4, "bulk%d" % (v if meth == "RT_Fresnel" else 0))
    return inc, bulk, trn


def structure(meth, v, names, prof):
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.textures import planar_surface, regular_pyramids
    inc, bulk, trn = media(meth, v)
    pl = [1, 2] if prof else None

    def face(pos):
        m = meth
        if meth == "ideal":
            if pos == 2:
                return Interface("Lambertian" if v == 1 else "Mirror", layers=[], name=names[1])
            m = "TMM"
        kw = {}
        if m.startswith("RT"):
            kw["texture"] = planar_surface()
        if m == "RCWA":
            kw.update(d_vectors=((500, 0), (0, 500)), rcwa_orders=1)
        if m == "RT_Fresnel":
            return Interface(m, layers=[], name=names[pos - 1], **kw)
        return Interface(m, layers=layers(pos, v, m == "RCWA", m == "RT_TMM"), name=names[pos - 1], coherent=True, prof_layers=pl, **kw)
    return Structure([face(1), BulkLayer(10e-6, bulk, name="bulk"), face(2)], incidence=inc, transmission=trn)


def rts(v, names, prof, opts, loc, ow):
    """ray-tracing structure with multilayer interfaces: only its lookup tables matter"""
    from rayflare.ray_tracing import rt_structure
    from rayflare.textures import planar_surface
    inc, bulk, trn = media("rts", v)
    tx = []
    for pos in (1, 2):
        kw = dict(interface_layers=layers(pos, v), name=names[pos - 1])
        if prof:
            kw["prof_layers"] = [1, 2]
        t = planar_surface(**kw)
        tx.append(t)
    return rt_structure(textures=tx, materials=[bulk], widths=[10e-6], incidence=inc, transmission=trn, use_TMM=True, options=opts,
                        save_location=loc, overwrite=ow)


def process(meth, r, loc, proj, names):
    from rayflare.matrix_formalism import process_structure
    o = options(meth, proj)
    if meth == "rts":
        rts(r["v"], names, r["prof"], o, loc, r["ow"])
        return None, o
    s = structure(meth, r["v"], names, r["prof"])
    process_structure(s, o, loc, r["ow"])
    return s, o


def rat(meth, r, loc, proj, names):
    from rayflare.matrix_formalism import calculate_RAT
    s = structure(meth, r["v"], names, r["prof"])
    return flat(calculate_RAT(s, options(meth, proj), loc))


def flat(x):
    """all numbers of a nested result"""
    if x is None or isinstance(x, str):
        return []
    if isinstance(x, dict):
        return [v for k in sorted(x) for v in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y)]
    if hasattr(x, "data_vars"):
        return [v for k in sorted(x.data_vars) for v in flat(x[k].data)]
    if hasattr(x, "todense"):
        x = x.todense()
    return [float(v) for v in np.asarray(x, dtype=float).ravel()]


def same(a, b, tol=1e-12):
    return len(a) == len(b) and all((x != x and y != y) or abs(x - y) <= tol * max(1.0, abs(x), abs(y)) for x, y in zip(a, b))


# ----------------------------------------------------------------- files
PARTS = {"RT.npz": "RT", "A.npz": "A", "profmat.nc": "prof"}


def find(path):
    """known files of one project folder: {(name, side, part): file}"""
    out = {}
    if not os.path.isdir(path):
        return out
    for f in sorted(os.listdir(path)):
        for side in ("front", "rear"):
            for end, part in PARTS.items():
                if f.endswith(side + end):
                    out[(f[:-len(side + end)], side, part)] = os.path.join(path, f)
        if f.endswith(".nc") and not f.endswith("profmat.nc"):
            nm = f[:-3]
            if nm[:-1].endswith("int_"):
                nm = nm[:-5] + str(int(nm[-1]) + 1)
            out[(nm, "table", "opt")] = os.path.join(path, f)
    return out


def content(f, part):
    """numbers in a file; a table has two parts (None: part not there)"""
    if part in ("RT", "A"):
        from sparse import load_npz
        return np.asarray(load_npz(f).todense(), float)
    import xarray as xr
    d = xr.load_dataset(f)
    try:
        if part == "prof":
            return np.concatenate([np.asarray(d["profile"].transpose("wl", ..., "global_index").data, float).ravel(), np.asarray(d["intgr"].data, float).ravel()])
        if part == "opt":
            return np.concatenate([np.asarray(d[k].transpose("side", "pol", "wl", "angle", ...).data, float).ravel() for k in ("R", "T", "Alayer")])
        if "Aprof" not in d:
            return None
        a = d["Aprof"].transpose("side", "pol", "wl", "angle", "layer", "coeff")
        return np.asarray(a.data, float).ravel()
    finally:
        d.close()


def feature(arr, part):
    """low-dimensional feature for randomised methods"""
    if part == "RT":
        n = arr.shape[1] // 2
        return np.array([arr[:, :n].sum() / arr.shape[0] / n, arr[:, n:].sum() / arr.shape[0] / n])
    if part == "A":
        return np.array([arr[:, i].mean() for i in range(arr.shape[1])]) if arr.ndim == 3 else np.array([arr.sum()])
    return np.array([np.nansum(arr) / arr.size])


def digest(f):
    with open(f, "rb") as h:
        return hashlib.sha1(h.read()).hexdigest()


class Ref:
    """reference contents per class: {(side, part): {class: array}}"""
    def __init__(self, meth, scratch):
        self.meth, self.rand = meth, meth.startswith("RT_")
        self.c = {}
        for v in (1, 2):
            os.makedirs(scratch, exist_ok=True)
            loc = os.path.join(scratch, "ref%d" % v)
            process(meth, dict(v=v, prof=meth != "RT_Fresnel", ow=False), loc, "p", ("x", "y"))
            for (nm, side, part), f in find(os.path.join(loc, "p")).items():
                pos = 1 if nm[0] == "x" else 2
                for q in ([part] if part != "opt" else ["opt", "coef"]):
                    a = content(f, q)
                    if a is not None:
                        self.c.setdefault((side, q), {})[2 * (pos - 1) + v] = a

    def classify(self, side, part, arr):
        """classes this content may be"""
        refs = self.c.get((side, part), {})
        if not np.all(np.isfinite(arr)) and part != "coef":
            return []
        refs = {c: a for c, a in refs.items() if a.shape == arr.shape}
        if self.rand and part not in ("opt", "coef"):
            if part == "prof":          # scale of the profiles: the largest of the references
                m = max([1e-12] + [feature(a, part)[0] for a in refs.values()])
                return sorted(c for c, a in refs.items() if abs(feature(a, part)[0] - feature(arr, part)[0]) < 0.3 * m)
            return sorted(c for c, a in refs.items() if np.all(np.abs(feature(a, part) - feature(arr, part)) < 0.3))
        return sorted(c for c, a in refs.items() if np.allclose(a, arr, rtol=1e-9, atol=1e-12, equal_nan=True))


def snapshot(ref, places, old, known=None):
    """places: {(loc id, proj id): folder}; returns (file list for the trace, digests)"""
    files, dig = [], {}
    for (li, pi), path in places.items():
        for (nm, side, part), f in find(path).items():
            d = digest(f)
            for q in ([part] if part != "opt" else ["opt", "coef"]):
                if known is not None and (d, side, q) in known:     # the same bytes have been looked at already
                    c = known[(d, side, q)]
                else:
                    a = content(f, q)
                    c = None if a is None else ref.classify(side, q, a)
                    if known is not None:
                        known[(d, side, q)] = c
                if c is None:
                    continue
                k = (li, pi, nm, side, q)
                dig[k] = d
                files.append(dict(k=list(k), c=c, same=old.get(k) == d))
    return files, dig
