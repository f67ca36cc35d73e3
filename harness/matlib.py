"""Crafted redistribution matrices for the real matrix method."""
import os, math
import numpy as np
from vlib import fx, fxl

D5 = dict(F="F5", P="{1, 2, 3, 4, 6, 8}")
CFG_CH = """CONSTANTS MaxN = %d
 Fineness <- %s
 Periods = {%s}
 MaxH = 2
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS TypeOK Partition PolarRestored Restored Halves Equivalent Emit
"""


def nphi(d, t):
    ring = t + 1 if t < d["n"] else 2 * d["n"] - t
    return -(-d["cp"] * ring // d["cq"])


def n_in(d):
    return sum(nphi(d, t) for t in range(d["n"]))


def options(d, **kw):
    o = dict(n_theta_bins=d["n"], phi_symmetry=2 * math.pi / d["k"], c_azimuth=d["cp"] / d["cq"], project_name="proj",
             theta_in=0.1, phi_in=0.1, I_thresh=1e-3, bulk_profile=False, depth_spacing=1e-9, depth_spacing_bulk=1e-6,
             parallel=False, pol="u", only_incidence_angle=False)
    if d["lin"]:
        o["theta_spacing"] = "linear"
    o.update(kw)
    return o


def save(loc, name, side, RT, A, prof=None, intgr=None, wls=None):
    """RT: (wl,) rows x columns, A: (wl,) layers x columns, prof: wl x z x columns"""
    from sparse import COO, save_npz
    import xarray as xr
    p = os.path.join(loc, "proj")
    os.makedirs(p, exist_ok=True)
    save_npz(os.path.join(p, name + side + "RT.npz"), COO.from_numpy(np.asarray(RT, float)))
    save_npz(os.path.join(p, name + side + "A.npz"), COO.from_numpy(np.asarray(A, float)))
    if prof is not None:
        n = np.shape(prof)[-1]
        pr = xr.DataArray(prof, dims=["wl", "z", "global_index"], coords={"wl": wls, "z": np.arange(np.shape(prof)[1]) * 1.0,
                                                                          "global_index": np.arange(n)}, name="profile")
        it = xr.DataArray(intgr, dims=["wl", "global_index"], coords={"wl": wls, "global_index": np.arange(n)}, name="intgr")
        xr.merge([it, pr]).to_netcdf(os.path.join(p, name + side + "profmat.nc"))


def structure(width, material, prof=(None, None), nlay=(1, 1)):
    import mat
    from rayflare.structure import Interface, BulkLayer, Structure
    from solcore.structure import Layer
    lay = [[Layer(10e-9, mat.Mat(1.5, 0.1)) for _ in range(k)] for k in nlay]
    return Structure([Interface("TMM", layers=lay[0], name="front", prof_layers=prof[0]), BulkLayer(width, material, name="bulk"),
                      Interface("TMM", layers=lay[1], name="back", prof_layers=prof[1])])


def onehot(v):
    v = np.asarray(v, float)
    if v.ndim != 1:
        return [[-1, 2000000000]]
    return [[int(i), fx(v[i])] for i in range(len(v)) if not abs(v[i]) <= 1e-7]
