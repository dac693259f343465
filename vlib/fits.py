"""Members, data files and independent simulations for the fit drivers."""
import contextlib
import json
import os

import numpy as np

from . import scat
from .bands import make_band, tensor
from .trans import make_cond

DRIVERS = ("multiT", "oneT", "series", "seriesT")


def modules():
    import cuprates_transport.fitting_admr_parallel_multiT as m
    import cuprates_transport.fitting_admr_parallel_oneT as o
    import cuprates_transport.fitting_admr_series_oneT as s
    import cuprates_transport.fitting_admr_series_multi_T as t
    return dict(multiT=m, oneT=o, series=s, seriesT=t)


def lin(x, xs, ys):
    """linear interpolation, constant outside; xs increasing"""
    xs, ys = [float(v) for v in xs], [float(v) for v in ys]
    out = []
    for v in np.atleast_1d(np.asarray(x, float)):
        if v <= xs[0]:
            out.append(ys[0])
        elif v >= xs[-1]:
            out.append(ys[-1])
        else:
            i = max(j for j in range(len(xs) - 1) if xs[j] <= v)
            out.append(ys[i] + (ys[i + 1] - ys[i]) * (v - xs[i]) / (xs[i + 1] - xs[i]))
    return np.array(out) if np.ndim(x) else out[0]


def write_table(path, theta, values, col_theta, col_val, ncol, order, seed, header=True, scale=1.0):
    """columns of junk around theta and values, rows in the order given ('up', 'down', 'random')"""
    r = np.random.RandomState(seed)
    M = np.round(r.uniform(-5, 200, (len(theta), ncol)), 3)
    M[:, col_theta] = theta
    M[:, col_val] = values
    if order == "down":
        M = M[::-1]
    elif order == "random":
        M = M[r.permutation(len(theta))]
    with open(path, "w") as f:
        if header:
            f.write("# theta and things\n")
        for row in M:
            f.write("\t".join("%.17g" % (x * (scale if i == col_val else 1)) for i, x in enumerate(row)) + "\n")


def member(spec, sc, B, T=0, **kw):
    """one band, in the form the oneT and series drivers take"""
    return dict(dict(band_name=spec.get("name", "band"), a=spec["a"], b=spec["b"], c=spec["c"], energy_scale=spec["scale"],
                     band_model=spec["model"], band_params=dict(spec["params"]), resolution=list(spec["res"]),
                     k_max=[x * np.pi for x in spec["k_max"]], number_of_bz=spec["nbz"],
                     scattering_models=list(sc["models"]), scattering_params=dict(sc["par"]), Bamp=B, T=T, N_time=60, fixdoping=2), **kw)


def simulate(members, phis, thetas, norm):
    """(rhozz, rzz) of the members together, from fresh objects, with the slice algorithm"""
    rho = np.empty((len(phis), len(thetas)))
    bands = []
    for m in members:
        from cuprates_transport.bandstructure import BandStructure
        b = BandStructure(a=m["a"], b=m["b"], c=m["c"], energy_scale=m["energy_scale"], band_params=dict(m["band_params"]),
                          band_model=m["band_model"], band_name=m["band_name"], resolution=list(m["resolution"]),
                          k_max=list(m["k_max"]), number_of_bz=m["number_of_bz"], parallel=False)
        b.march_square = True
        b.runBandStructure()
        bands.append(b)
    for i, p in enumerate(phis):
        for j, t in enumerate(thetas):
            s = 0
            for b, m in zip(bands, members):
                c = make_cond(b, dict(models=m["scattering_models"], par=m["scattering_params"]), m["Bamp"], float(t), float(p), m["T"],
                              N_time=m["N_time"])
                c.runTransport()
                s = s + tensor(c.sigma, "sigma")
            rho[i, j] = np.linalg.inv(s)[2, 2]
    return rho, np.array([r / lin(norm, thetas, r) for r in rho])


def snapshot(x):
    return json.dumps(x, sort_keys=True, default=lambda o: np.asarray(o).tolist())


def freeze(d):
    """comparable form of dictionaries with any keys"""
    if isinstance(d, dict):
        return sorted(((repr(k), freeze(v)) for k, v in d.items()), key=lambda t: t[0])
    if isinstance(d, np.ndarray):
        return d.tolist()
    if isinstance(d, (list, tuple)):
        return [freeze(v) for v in d]
    if isinstance(d, (np.floating, np.integer)):
        return d.item()
    return d


def files(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = open(p, "rb").read()
    return out


@contextlib.contextmanager
def small_grids(lim=(25, 25, 9), rough=101):
    """the filling grids of every band (500^3 points by default) clamped to lim points, and the first mesh of the
    slice algorithm (501^2) to 101^2"""
    from cuprates_transport.bandstructure import BandStructure as B
    saved = {n: B.__dict__[n] for n in ("dispersion_grid", "update_filling", "doping", "filling") if n in B.__dict__}

    def clamp(f, first):
        def g(self, *a, **k):
            a = list(a)
            for i, (n, m) in enumerate(zip(("res_x", "res_y", "res_z"), lim)):
                if i < len(a):
                    a[i] = min(a[i], m)
                else:
                    k[n] = min(k.get(n, m), m)
            return f(self, *a, **k)
        return g
    init = B.__init__

    def start(self, *a, **k):
        init(self, *a, **k)
        if hasattr(self, "res_xy_rough"):
            self.res_xy_rough = rough
    try:
        B.__init__ = start
        for n, f in saved.items():
            if n == "dispersion_grid":
                B.dispersion_grid = (lambda f: lambda self, resolution, *a, **k: f(self, [min(r, m) for r, m in zip(resolution, lim)], *a, **k))(f)
            else:
                setattr(B, n, clamp(f, n))
        yield
    finally:
        B.__init__ = init
        for n, f in saved.items():
            setattr(B, n, f)
