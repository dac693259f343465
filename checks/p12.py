import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, any_band, slice_band, q, near, pi, check_fs, surface_exists, meshable, hbar, QE, PS, ANG)
from vlib import scat
from vlib.trans import make_cond, omega_tau, field, gamma_bounds

RULE = ("Bands of the zoo x resolutions x fields (1-100 T, any direction, either sign) x rates x numbers of time steps x solver "
        "tolerances. Stored trajectories: starting points, time array, energy and k along the field conserved, stored velocities, "
        "agreement of up to 6 trajectories per case with an independent DOP853 integration (1e-10) of the independent velocity, "
        "closer for tighter tolerances. Non-trivial: a trajectory moves by more than 0.3 of the zone and a tilted field.")


def orbit(ref, k0, Bv, times):
    from scipy.integrate import solve_ivp
    f = QE / hbar * PS * ANG
    n = k0.shape[1]

    def rhs(t, y):
        v = ref.velocity(*y.reshape(3, n))
        return (f * np.cross(v.T, Bv).T).ravel()
    r = solve_ivp(rhs, (0, times[-1]), k0.ravel(), method="DOP853", t_eval=times, rtol=1e-9, atol=1e-10)
    if not r.success or r.y.shape[1] != len(times):
        return None
    return r.y.reshape(3, n, len(times))


def advanced(ref, k, Bv, dt, n=40):
    """all points together over one time step, RK4"""
    f, h = QE / hbar * PS * ANG, dt / n

    def rhs(k):
        return f * np.cross(ref.velocity(*k).T, Bv).T
    for _ in range(n):
        a = rhs(k)
        b = rhs(k + h / 2 * a)
        c = rhs(k + h / 2 * b)
        k = k + h / 6 * (a + 2 * b + 2 * c + rhs(k + h * c))
    return k


def orbits(case, ctx):
    spec = dict(case["spec"])
    ref = Ref(spec)
    if not meshable(ref, spec):
        ctx.discard()
    band = make_band(spec)
    band.discretize_fermi_surface()
    check_fs(band)
    vn = np.sqrt((band.vf ** 2).sum(0))
    if np.min(vn) < 1e-3 * np.max(vn):
        ctx.discard()
    sc = case["sc"]
    B, th, ph = case["B"], case["th"], case["ph"]
    w = omega_tau(band, sc, B)
    lim = 4.0                   # total phase: 8 * omega tau rad
    if w > lim:
        B = round(B * lim / w, 3)
    Bv = field(B, th, ph)
    N = case["N"] if min(case["tols"]) > 1e-9 else max(case["N"], 60)
    res = {}
    for tol in case["tols"]:
        c = make_cond(band, sc, B, th, ph, N_time=N, rtol=tol, atol=tol)
        c.runTransport()
        g = scat.gamma(sc["models"], sc["par"], spec, band.kf.astype(float), band.vf, np.max(band.dos_k))
        t = np.asarray(c.time_array, float)
        near("time_max = 8 times the longest lifetime", c.time_max, 8 / g.min(), 1e-4)
        if t.ndim != 1 or len(t) not in (N, N + 1) or t[0] != 0 or np.any(np.abs(np.diff(t) - c.dtime) > 1e-6 * c.dtime):
            raise Violation("the time array is not uniform with N_time = %d steps: %d values" % (N, len(t)))
        near("time step times N_time", c.dtime * N, c.time_max, 1e-6)
        n = band.kf.shape[1]
        if c.kft.shape != (3, n, len(t)) or c.vft.shape != c.kft.shape:
            raise Violation("shapes of the trajectories: kft %s, vft %s for %d points and %d times" % (c.kft.shape, c.vft.shape, n, len(t)))
        if not np.all(np.isfinite(c.kft)) or not np.all(np.isfinite(c.vft)):
            raise Violation("the trajectories are not finite")
        near("trajectories at t = 0", c.kft[:, :, 0], band.kf.astype(float), 1e-7, scale=np.max(ref.kmax))
        near("velocities at t = 0", c.vft[:, :, 0], band.vf, 1e-5, scale=vn.max())
        v = ref.velocity(*c.kft)
        near("velocities along the trajectories", c.vft, v, 1e-6, scale=np.max(np.abs(v)))
        # conservation laws; lsoda controls the local error: leave room for its accumulation
        steps = 20 + 3 * 8 * max(omega_tau(band, sc, B), 0.3)
        room = steps * tol * (1 + np.max(np.abs(c.kft)))
        own = room if tol > 1e-9 else room + 1e-6 * (1 + np.max(np.abs(c.kft)))       # accuracy of the comparison orbits
        gr = np.sqrt((ref.grad(*c.kft) ** 2).sum(0)).max()
        E = ref.energy(*c.kft)
        near("energy along the trajectories", E, np.repeat(E[:, :1], len(t), axis=1), 0.6, scale=room * gr)
        bh = Bv / np.linalg.norm(Bv)
        kb = np.einsum("i,int->nt", bh, c.kft)
        near("k along the field", kb, np.repeat(kb[:, :1], len(t), axis=1), 1.0, scale=room)
        # every trajectory, over its first step and over a later one
        for i in (0, case["step"] % (len(t) - 1)):
            k0, dt = c.kft[:, :, i], t[i + 1] - t[i]
            k1 = advanced(ref, k0, Bv, dt)
            d0 = np.random.default_rng(1).normal(size=k0.shape) * 1e-7
            stretch = max(1.0, np.max(np.abs(advanced(ref, k0 + d0, Bv, dt) - k1)) / 1e-7)
            near("all trajectories over step %d (tolerance %g)" % (i, tol), c.kft[:, :, i + 1], k1, 1.0, scale=own * stretch)
        # a few trajectories, integrated independently
        idx = np.unique(np.linspace(0, n - 1, 6).astype(int))
        k = orbit(ref, c.kft[:, idx, 0], Bv, t)
        if k is None:
            continue
        d = np.abs(k - c.kft[:, idx, :])
        # errors along the orbit grow with the phase: relative to how strongly neighbouring orbits separate
        e = 1e-7
        k1 = k[:, :, 0] * (1 + e)
        k2 = orbit(ref, k1, Bv, t)
        stretch = 1.0 if k2 is None else max(1.0, np.max(np.abs(k2 - k)) / np.max(np.abs(k1 - k[:, :, 0])))
        near("trajectories against an independent integration (tolerance %g)" % tol, d, 0 * d, 0.8, scale=own * stretch)
        res[tol] = np.max(d) / stretch
        path = np.max(np.abs(k - k[:, :, :1]))
    if len(res) == 2:
        lo, hi = min(res), max(res)
        if res[lo] > 1e-6 and res[lo] > 0.3 * res[hi]:
            raise Violation("solver tolerance %g gives an error %g, tolerance %g gives %g" % (lo, res[lo], hi, res[hi]))
    if res:
        ctx.nontrivial(path > 0.3 * np.min(ref.kmax) and th % 90 != 0)
    ctx.label(spec["fam"], "slices" if spec.get("ms") else "cubes", "+".join(sorted(sc["models"])))


res = st.sampled_from([[9, 9, 5], [13, 13, 7], [17, 15, 5]] * 4 + [[47, 43, 21]])
gen = st.fixed_dictionaries(dict(
    spec=st.one_of(any_band(res=res), slice_band(res=res)), sc=scat.models(g0=(3, 40)),
    B=st.one_of(q(1, 100, 1), q(-90, -1, 1)), th=q(0, 180, 5), ph=q(0, 360, 15), N=st.sampled_from([60, 137, 250, 500, 10, 24]),
    step=st.integers(0, 500), tols=st.sampled_from([[1e-4], [1e-4, 1e-8], [1e-6], [1e-3, 1e-7], [1e-8], [1e-11]])))

SUBS = [Sub("orbits", gen, orbits, 240, 8000)]
