import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, any_band, slice_band, pockets, q, near, pi, check_fs, hbar, second_derivative_bound,
                        resolutions, surface_exists, merged_slices, nearly_fourfold)

RULE = ("Bands of the zoo (cuprate, orthorhombic tight binding, warped cylinder, shifted ellipsoidal electron and hole "
        "pockets, antiferromagnetic) x lattices x zone bounds x odd/even resolutions x energies x both algorithms. Every "
        "stored point is tested against the independent energy, gradient and zone; every point of an "
        "independent ray-traced surface must have a stored point nearby. Non-trivial: the surface exists and has "
        "at least 20 stored points.")


def on_surface(case, ctx):
    spec = dict(case["spec"])
    if "res" in case:
        spec["res"] = case["res"]
    kf = case["kf"]
    spec["k_max"] = [x * f for x, f in zip(spec["k_max"], kf)]
    ref = Ref(spec)
    band = make_band(spec)
    eps = case["eps"] * spec["scale"] * 0.05
    small = dict(n=(61, 61, 11), fmin=0.002) if spec.get("ms") else {}
    if not surface_exists(ref, eps, margin=0.02 * spec["scale"] * abs(spec["params"]["t" if "t" in spec["params"] else "tx"]), **small):
        ctx.discard()
    if spec["fam"] == "pockets" and not spec.get("ms"):      # the mesh needs enough points per period of the band
        per = [2 * ref.kmax[i] * spec["ab"[i]] / (2 * pi) * (2 if "2*%s*k%s" % ("ab"[i], "xy"[i]) in spec["model"] else 1) for i in (0, 1)]
        if min(spec["res"][i] / per[i] for i in (0, 1)) < 6:
            ctx.discard()
    if case["via"] == "run":
        if np.prod(spec["res"]) > 3000:
            ctx.discard()       # the filling grid has 1000 times more points
        band.runBandStructure(epsilon=eps)
    else:
        band.discretize_fermi_surface(epsilon=eps)
    check_fs(band)
    kf, n = band.kf.astype(float), band.kf.shape[1]
    ctx.label(spec["fam"], "slices" if spec.get("ms") else "cubes", "a=b" if spec["a"] == spec["b"] else "a!=b",
              "eps0" if eps == 0 else "eps")
    # -- inside of the zone
    for i in range(3):
        if np.max(np.abs(kf[i])) > ref.kmax[i] * (1 + 1e-5):
            raise Violation("a stored point is out of the zone: |k%s| = %g > %g" % ("xyz"[i], np.max(np.abs(kf[i])), ref.kmax[i]))
    # -- on the surface
    D2 = second_derivative_bound(ref)
    res = [r if r % 2 else r + 1 for r in spec["res"]]
    h = 2 * ref.kmax / (np.array(res) - 1)
    g = ref.grad(*kf)
    gn = np.sqrt((g ** 2).sum(0))
    if spec.get("ms"):
        hh = 2 * ref.kmax[:2] / 999
        tol = 0.75 * (D2[0, 0] * hh[0] ** 2 + D2[1, 1] * hh[1] ** 2 + 2 * D2[0, 1] * hh[0] * hh[1])
    else:
        tol = np.max(D2[[0, 1, 2], [0, 1, 2]] * h ** 2) / 8
    slack = 1e-5 * np.max(gn) * np.max(ref.kmax) + 1e-9 * spec["scale"]
    de = np.abs(ref.energy(*kf) - eps)
    if np.max(de) > 1.5 * tol + slack:
        i = int(np.argmax(de))
        raise Violation("stored point %s has energy %g instead of %g (allowed error %g)" %
                        (kf[:, i].tolist(), ref.energy(*kf[:, i]), eps, 1.5 * tol + slack))
    # -- velocity and density of states of the very same point
    v = ref.velocity(*kf)
    vs = np.max(np.abs(v))
    f32 = 1e-9 if band.kf.dtype == np.float64 else 1e-6
    near("stored velocity", band.vf, v, 10 * f32, scale=vs)
    vn = np.sqrt((v ** 2).sum(0))
    good = vn > 1e-3 * vs
    near("stored density of states times hbar |v|", (band.dos_k * hbar * vn)[good], np.ones(good.sum()), 1e-4)
    # -- weights
    if np.min(band.dkf) < 0 or np.max(band.dkf) <= 0:
        raise Violation("surface weights are not positive")
    ctx.nontrivial(n >= 20)
    # -- coverage
    if spec.get("ms"):
        slices(spec, ref, band, eps, res)
    else:
        pts = np.hstack([ref.rays(d, eps, 17, 200)[0] for d in range(3)])
        if pts.shape[1]:
            g = np.sqrt((ref.grad(*pts) ** 2).sum(0))
            uncovered(pts[:, g > 0.1 * np.median(g)], kf, h, 2.0, "the surface")


def uncovered(pts, kf, h, lim, what):
    from scipy.spatial import cKDTree
    d, _ = cKDTree((kf / h[:, None]).T).query((pts / h[:, None]).T, p=np.inf)
    if np.max(d) > lim:
        i = int(np.argmax(d))
        raise Violation("%s passes through k = %s but the nearest stored point is %.2f steps away" %
                        (what, pts[:, i].tolist(), d[i]))


def slices(spec, ref, band, eps, res):
    kz, inv = merged_slices(band.kf[2])
    cnt = np.bincount(inv)
    lst = [int(x) for x in band.number_of_points_per_kz_list]
    if [x for x in lst if x] != cnt.tolist():
        raise Violation("number of points per kz slice: reported %s, stored %s" % (lst, cnt.tolist()))
    if len(lst) != res[2]:
        raise Violation("%d slices for a resolution of %d" % (len(lst), res[2]))
    step = 2 * ref.kmax[2] / (res[2] - 1)
    # every height between two neighbouring slices must be close to a slice when the surface exists there
    kx = np.linspace(-ref.kmax[0], ref.kmax[0], 201)
    ky = np.linspace(-ref.kmax[1], ref.kmax[1], 201)
    X, Y = np.meshgrid(kx, ky, indexing="ij")
    for z in np.linspace(-ref.kmax[2], ref.kmax[2], res[2]):
        E = ref.energy(X, Y, np.full_like(X, z)) - eps
        frac = np.mean(E > 0)
        m = 0.01 * (E.max() - E.min())
        if 0.003 < frac < 0.997 and E.min() < -m and E.max() > m:
            j = int(np.argmin(np.abs(kz - z)))
            if abs(kz[j] - z) > 0.51 * step:
                raise Violation("no point near the slice kz = %g (zone height %g)" % (z, 2 * ref.kmax[2]))
    lim = 4 / 3 * pi / (res[0] * spec["a"])     # one step along the contour (at least 4 points per contour)
    from scipy.spatial import cKDTree
    for j, z in enumerate(kz):
        p = []
        for d in (0, 1):
            k, _ = Ref2(ref, z).rays(d, eps)
            p.append(k)
        p = np.hstack(p)
        if p.shape[1] == 0:
            continue
        g = np.sqrt((ref.grad(p[0], p[1], np.full(p.shape[1], z))[:2] ** 2).sum(0))
        p = p[:, g > 0.2 * np.median(g)]        # away from saddle points of the slice, where contours jump
        if p.shape[1] == 0:
            continue
        s = band.kf[:2, inv == j]
        d, _ = cKDTree(s.T).query(p.T)
        if np.max(d) > lim * 1.02 + 1e-3 * ref.kmax[0]:
            i = int(np.argmax(d))
            raise Violation("slice kz = %g passes through (%g, %g) but the nearest stored point is %g away (step %g)" %
                            (z, p[0, i], p[1, i], d[i], lim))


class Ref2:
    """contour of one slice by rays along x and y"""

    def __init__(self, ref, z):
        self.ref, self.z = ref, z

    def rays(self, d, eps, M=41, K=241):
        ref = self.ref
        o = 1 - d
        u = (-1 + (2 * np.arange(M) + 1) / M) * ref.kmax[o]
        w = np.linspace(-ref.kmax[d], ref.kmax[d], K)

        def en(a, b):
            k = [None, None, np.full(np.broadcast(a, b).shape, self.z)]
            k[o], k[d] = a, b
            return ref.energy(*k) - eps
        sg = en(u[:, None], w[None, :]) > 0
        i, j = np.nonzero(sg[:, 1:] != sg[:, :-1])
        lo, hi, slo, uu = w[j], w[j + 1], sg[i, j], u[i]
        for _ in range(35):
            mid = 0.5 * (lo + hi)
            s = en(uu, mid) > 0
            lo, hi = np.where(s == slo, mid, lo), np.where(s == slo, hi, mid)
        k = np.empty((2, len(i)))
        k[o], k[d] = uu, 0.5 * (lo + hi)
        return k, 2 * ref.kmax[o] / M


RES = st.lists(st.integers(14, 30), min_size=2, max_size=2).flatmap(
    lambda l: st.integers(5, 14).map(lambda z: l + [z]))
KFAC = st.sampled_from([[1, 1, 1], [1, 1, 1], [1, 1, 0.5], [1, 1, 2], [2, 1, 1], [1, 2, 1], [0.5, 1, 1], [2, 2, 1]])

gen_cubes = st.fixed_dictionaries(dict(spec=st.one_of(any_band(), any_band(), any_band(), pockets()), res=RES, kf=KFAC, eps=st.sampled_from([0, 0, 1, -1, 2, 0.5]),
                                       via=st.just("fs")))
gen_slices = st.fixed_dictionaries(dict(spec=st.one_of(slice_band(), slice_band(), nearly_fourfold().map(lambda s: dict(s, ms=True)), pockets().map(lambda s: dict(s, ms=True))), res=RES, kf=KFAC,
                                        eps=st.sampled_from([0, 0, 1, -1, 2, 0.5]), via=st.just("fs")))
gen_run = st.fixed_dictionaries(dict(spec=st.one_of(any_band(), slice_band()),
                                     res=st.sampled_from([[13, 13, 7], [12, 14, 6], [15, 15, 9]]),
                                     kf=st.just([1, 1, 1]), eps=st.sampled_from([0, 1, -1]), via=st.just("run")))

SUBS = [Sub("cubes", gen_cubes, on_surface, 320, 12000),
        Sub("slices", gen_slices, on_surface, 140, 6000),
        Sub("run", gen_run, on_surface, 48, 600)]
