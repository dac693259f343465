import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, cuprate, ortho, cylinder, ellipsoid, slice_band, nearly_fourfold, q, near, pi, check_fs, ANG, MEV,
                        surface_exists, merged_slices)

RULE = ("Smooth bands (cuprate away from van Hove points, orthorhombic, warped cylinder, ellipsoidal electron and hole "
        "pockets) x lattices x zone bounds x energies. Marching cubes: area, moments of periodic functions and density of "
        "states against an independent ray quadrature, at a coarse (4-6 %) and at a fine resolution (1.2-2 %). Marching "
        "squares: perimeter of every slice against rays in that slice, thickness of the slices, total. "
        "Non-trivial: the surface exists, is away from van Hove points and has at least 50 stored points.")


def moments(ref, k, w):
    """integrals of 1 and of smooth functions without a definite sign structure over the surface"""
    x, y, z = (k[i] * n for i, n in enumerate((ref.a, ref.b, ref.c)))
    f = [np.ones_like(x), 1 + 0.7 * np.cos(x + 0.3) + 0.3 * np.sin(y),
         1 + 0.7 * np.cos(y - 0.4) * np.cos(z / 2), 1 + 0.6 * np.sin(z / 2 + 0.2) + 0.3 * np.sin(x)]
    return np.array([np.sum(w * g) for g in f])


def cubes(case, ctx):
    spec = dict(case["spec"])
    spec["k_max"] = [x * f for x, f in zip(spec["k_max"], case["kf"])]
    eps = case["eps"] * spec["scale"] * 0.05
    ref = Ref(spec)
    width = spec["scale"] * abs(spec["params"]["t" if "t" in spec["params"] else "tx"])
    if not surface_exists(ref, eps, margin=0.1 * width):
        ctx.discard()
    gmin, gmed = ref.bandwidth_floor(eps)
    if gmin < 0.3 * gmed:
        ctx.discard()       # close to a van Hove point
    area = None
    for m in (64, 96):
        k, w, g = ref.surface_points(eps, *(m * max(case["kf"]), 240 * max(case["kf"])))
        gn = np.sqrt((g ** 2).sum(0))
        old = area
        area, dos = moments(ref, k, w), moments(ref, k, w / gn)
        if old is not None and np.any(np.abs(np.hstack([old[0] - area, old[1] - dos])) > 0.012 * np.hstack([area, dos])):
            ctx.discard()   # the quadrature of the reference has not converged
        area = (area, dos)
    area, dos = area
    for res, ta, td in ((case["res"], 0.055, 0.075), (case["fine"], 0.013, 0.02)):
        res = [int(r * max(f, 1)) for r, f in zip(res, case["kf"])]
        band = make_band(dict(spec, res=res))
        band.discretize_fermi_surface(epsilon=eps)
        check_fs(band)
        kf = band.kf.astype(float)
        what = "resolution %s: " % res
        near(what + "surface integrals of (1, f1, f2, f3) from the weights", moments(ref, kf, band.dkf), area, ta, scale=area)
        # dos_k is in 1/(J m)
        near(what + "integrals of the density of states", moments(ref, kf, band.dkf * band.dos_k * MEV * ANG), dos, td, scale=dos)
        band.dos_epsilon_func()
        # dos_epsilon: 2/(2 pi)^3 int dS/|grad E| in J^-1 m^-3
        near(what + "total density of states", band.dos_epsilon * MEV * ANG ** 3, 2 / (2 * pi) ** 3 * dos[0], td)
        near(what + "total density of states from the weights", band.dos_epsilon,
             2 / (2 * pi) ** 3 * np.sum(band.dkf * band.dos_k) / ANG ** 2, 1e-5)
    ctx.label(spec["fam"], "a=b" if spec["a"] == spec["b"] else "a!=b", "eps" if eps else "eps0")
    ctx.nontrivial(kf.shape[1] >= 50)


def perimeter(ref, z, eps, M=200, K=241):
    """length of the contour of one slice, min and median of the in-plane gradient"""
    tot, gs = 0.0, []
    for d in (0, 1):
        o = 1 - d
        u = (-1 + (2 * np.arange(M) + 1) / M) * ref.kmax[o]
        w = np.linspace(-ref.kmax[d], ref.kmax[d], K)

        def en(p, s):
            k = [None, None, np.full(np.broadcast(p, s).shape, z)]
            k[o], k[d] = p, s
            return ref.energy(*k) - eps
        sg = en(u[:, None], w[None, :]) > 0
        i, j = np.nonzero(sg[:, 1:] != sg[:, :-1])
        lo, hi, slo, uu = w[j], w[j + 1], sg[i, j], u[i]
        for _ in range(35):
            mid = 0.5 * (lo + hi)
            s = en(uu, mid) > 0
            lo, hi = np.where(s == slo, mid, lo), np.where(s == slo, hi, mid)
        k = [None, None, np.full(len(uu), z)]
        k[o], k[d] = uu, 0.5 * (lo + hi)
        g = ref.grad(*k)[:2]
        n = np.sqrt((g ** 2).sum(0))
        pu = (g * ref.kmax[:2, None]) ** 4
        tot += np.sum(pu[d] / pu.sum(0) * n / np.maximum(np.abs(g[d]), 1e-300)) * 2 * ref.kmax[o] / M
        gs.append(n)
    gs = np.hstack(gs)
    return tot, (gs.min() if gs.size else 0.0), (np.median(gs) if gs.size else 0.0)


def slices(case, ctx):
    spec = dict(case["spec"], res=case["res"])
    kf = case["kf"]
    spec["k_max"] = [x * f for x, f in zip(spec["k_max"], kf)]
    eps = case["eps"] * spec["scale"] * 0.05
    ref = Ref(spec)
    width = spec["scale"] * abs(spec["params"]["t" if "t" in spec["params"] else "tx"])
    if not surface_exists(ref, eps, margin=0.1 * width):
        ctx.discard()
    if not surface_exists(ref, eps, [41, 41, case["res"][2] | 1]):
        ctx.discard()       # between the slices
    band = make_band(spec)
    band.discretize_fermi_surface(epsilon=eps)
    check_fs(band)
    N = case["res"][2] + (1 - case["res"][2] % 2)
    H = 2 * ref.kmax[2]
    kz, inv = merged_slices(band.kf[2])
    n = band.kf.shape[1]
    for name in ("dks", "dkz"):
        a = np.asarray(getattr(band, name), float) + np.zeros(n)
        if a.shape != (n,) or not np.all(np.isfinite(a)) or np.any(a <= 0):
            raise Violation("%s is not a positive array of the length of the Fermi surface" % name)
    dks, dkz = band.dks + np.zeros(n), band.dkz + np.zeros(n)
    near("weight = path step times slice thickness", band.dkf, dks * dkz, 1e-6)
    want_tot, want_full, ok = 0.0, 0.0, True
    for j, z in enumerate(kz):
        P, gmin, gmed = perimeter(ref, z, eps, 1000 if min(kf) < 1 else 300)
        if gmin < 0.2 * gmed or gmed == 0 or P < 0.3 * ref.kmax[0]:
            ok = False              # a saddle point of the slice, or a vanishing pocket
            ctx.label("slice near a saddle")
            continue
        s = inv == j
        near("slice kz = %g: length of the contour" % z, np.sum(dks[s]), P, 0.008)
        t = np.unique(np.round(dkz[s], 12))
        end = abs(abs(z) - H / 2) < 1e-9
        allowed = [H / (N - 1), H / N] + ([H / (N - 1) / 2] if end else [])
        if len(t) != 1 or min(abs(t[0] - x) for x in allowed) > 1e-6 * H:
            raise Violation("slice kz = %g has thickness %s for %d slices of a zone of height %g" % (z, t, N, H))
        want_tot += P * H / (N - 1) * (0.5 if end else 1)
        want_full += P * H / (N - 1)
    if ok and len(kz) == N:
        got = float(np.sum(band.dkf))
        # H/N per slice also is a right rule for a periodic zone: then the total is the mean perimeter times H
        mean = want_full * (N - 1) / N
        if abs(got - want_tot) <= 0.006 * want_tot or abs(got - mean) <= 0.006 * mean:
            ctx.label("total exact")
        elif abs(got - want_full) <= 0.006 * want_full:
            ctx.known("KF1", "%d slices at -kz_max...kz_max of full thickness count the zone %d/%d times" % (N, N, N - 1))
        else:
            raise Violation("the weights sum to %g, the area of the slices is %g" % (got, want_tot))
    old = band.dos_epsilon
    band.dos_epsilon_func()
    near("total density of states from the weights", band.dos_epsilon,
         2 / (2 * pi) ** 3 * np.sum(band.dkf * band.dos_k) / ANG ** 2, 1e-6)
    ctx.label(spec["fam"], "a=b" if spec["a"] == spec["b"] else "a!=b")
    ctx.nontrivial(n >= 50)


KFAC = st.sampled_from([[1, 1, 1], [1, 1, 1], [1, 1, 1], [1, 1, 0.5], [1, 1, 0.5], [2, 1, 1], [1, 2, 1]])
KFAC2 = st.sampled_from([[1, 1, 1], [1, 1, 1], [1, 1, 0.5], [2, 1, 1], [1, 2, 1], [0.5, 1, 1]])
EPS = st.sampled_from([0, 0, 1, -1, 0.5])
bands = st.one_of(cuprate(), ortho(), cylinder(), ellipsoid())
gen_cubes = st.fixed_dictionaries(dict(
    spec=bands, kf=KFAC, eps=EPS,
    res=st.tuples(st.integers(30, 40), st.integers(30, 40), st.integers(20, 26)).map(list),
    fine=st.tuples(st.integers(62, 70), st.integers(62, 70), st.integers(46, 52)).map(list)))
gen_slices = st.fixed_dictionaries(dict(
    spec=st.one_of(slice_band(), slice_band(), nearly_fourfold().map(lambda s: dict(s, ms=True))), kf=KFAC2, eps=EPS,
    res=st.tuples(st.integers(8, 30), st.integers(8, 30), st.integers(3, 9)).map(list)))

SUBS = [Sub("cubes", gen_cubes, cubes, 200, 8000),
        Sub("slices", gen_slices, slices, 110, 5000)]
