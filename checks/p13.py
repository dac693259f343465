import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, any_band, slice_band, cuprate, ortho, cylinder, q, near, pi, check_fs, surface_exists, meshable, tensor)
from vlib import scat
from vlib.trans import make_cond, omega_tau, field, gamma_bounds, rk4_orbits, chambers, sigma0

RULE = ("Bands of the zoo x algorithms x 1-3 scattering models x fields x N_time. (a) sigma against the Chambers integral "
        "evaluated by trapezoids along independent RK4 orbits (independent velocities, rates and surface weights taken from the "
        "band) over 12 lifetimes; (b) field to zero; (c) common scaling of field and rates; (d) convergence with N_time. "
        "Non-trivial: omega_c tau > 0.2, or an anisotropic rate.")


def prepare(case, ctx, wmax):
    spec = dict(case["spec"], nbz=case.get("nbz", 1))
    ref = Ref(spec)
    if not meshable(ref, spec):
        ctx.discard()
    band = make_band(spec)
    band.discretize_fermi_surface()
    check_fs(band)
    vn = np.sqrt((band.vf ** 2).sum(0))
    if np.min(vn) < 1e-2 * np.max(vn):
        ctx.discard()
    # at kx = ky = 0 (mod the zone) the angle of the anisotropic rates is undefined
    kp = [np.abs(scat.fold(band.kf[i] * spec[n], 2 * pi)) for i, n in enumerate("ab")]
    if np.min(np.hypot(*kp)) < 1e-3 and len(case["sc"]["models"]) > 1:
        ctx.discard()
    B = case["B"]
    w = omega_tau(band, case["sc"], B)
    if w > wmax:
        B = round(B * wmax / w, 3)
    return spec, ref, band, B, min(w, wmax)


def scale_of(band, spec, sc):
    s0 = sigma0(band, spec, sc, spec["nbz"])
    d = np.sqrt(np.maximum(np.diag(s0), 1e-3 * np.max(np.diag(s0))))
    return np.outer(d, d)


def integral(case, ctx):
    spec, ref, band, B, w = prepare(case, ctx, 4.0)
    sc, th, ph = case["sc"], case["th"], case["ph"]
    lo, hi = gamma_bounds(sc)
    N = case["N"]
    c = make_cond(band, sc, B, th, ph, N_time=N)
    c.runTransport()
    s = tensor(c.sigma, "sigma")
    k0, dos, dkf = band.kf.astype(float), band.dos_k, band.dkf
    g0 = scat.gamma(sc["models"], sc["par"], spec, k0, band.vf, np.max(dos))
    # 12 of the longest lifetimes, fine enough for the fastest rate and the fastest rotation
    nt = int(min(3000, max(600, 12 * 12 * g0.max() / g0.min(), 300 * max(w, 1))))
    t = np.linspace(0, 12 / g0.min(), nt + 1)
    idx = slice(None)
    kt = rk4_orbits(ref, k0[:, idx], field(B, th, ph), t)
    vt = ref.velocity(*kt)
    g = scat.gamma(sc["models"], sc["par"], spec, kt, vt, np.max(dos))
    want = chambers(kt, vt, g, t[1] - t[0], dkf * dos, spec["nbz"])
    D = scale_of(band, spec, sc)
    # left Riemann sums of the code: relative error gamma_max dt / 2 with dt = 8 / (N gamma_min)
    hi = max(hi, np.max(g))
    tol = 0.006 + 4.5 * (hi / g0.min()) / N
    near("sigma against the Chambers integral along independent orbits", s / D, want / D, tol, scale=max(1.0, np.max(np.abs(want / D))))
    near("gamma_tot_min", c.gamma_tot_min, g0.min(), 1e-5)
    near("gamma_tot_max", c.gamma_tot_max, g0.max(), 1e-5)
    # lifetimes and accumulated probabilities stored along the orbits
    gk = scat.gamma(sc["models"], sc["par"], spec, c.kft, c.vft, np.max(dos))
    near("stored lifetime along the orbits, times the rate", np.asarray(c.tau_tot) * gk, np.ones_like(gk), 1e-4)
    G = np.concatenate([np.zeros((gk.shape[0], 1)), np.cumsum(0.5 * (gk[:, 1:] + gk[:, :-1]) * c.dtime, axis=1)], axis=1)
    near("exponent of the survival probability", c.t_o_tau, G, 1.0, scale=c.dtime * max(hi, np.max(gk)) * 1.2)
    ctx.label(spec["fam"], "slices" if spec.get("ms") else "cubes", "+".join(sorted(sc["models"])))
    ctx.nontrivial(w > 0.2 or len(sc["models"]) > 1)


def limits(case, ctx):
    spec, ref, band, B, w = prepare(case, ctx, 4.0)
    sc, th, ph = case["sc"], case["th"], case["ph"]
    lo, hi = gamma_bounds(sc)
    D = scale_of(band, spec, sc)
    kind = case["kind"]
    N = case["N"]
    c = make_cond(band, sc, B, th, ph, N_time=N)
    if kind == "zero":
        s = []
        for b in (0, 1e-6, -1e-3):
            c.Bamp = b
            c.runTransport()
            s.append(tensor(c.sigma, "sigma at %g T" % b) / D)
        for x, b in zip(s[1:], (1e-6, 1e-3)):
            near("sigma at %g T against zero field" % b, x, s[0], 0.003 + 4.5 * (hi / lo) / N, scale=max(1.0, np.max(np.abs(s[0]))))
    elif kind == "kohler":
        c.runTransport()
        s = tensor(c.sigma, "sigma")
        f = case["f"]
        c.Bamp = B * f
        c.scattering_params = {k: (v * f if k.startswith("gamma") else v) for k, v in sc["par"].items()}
        c.runTransport()
        near("sigma for %g times the field and the rates" % f, np.asarray(c.sigma) * f / D, s / D, 2e-3, scale=1)
    else:
        s = []
        for n in (N, 2 * N, 4 * N, 8 * N):
            c.N_time = n
            c.runTransport()
            s.append(tensor(c.sigma, "sigma") / D)
        e = [np.max(np.abs(x - s[-1])) for x in s[:-1]]
        # first order or better: the error against 8 N falls as (1/N - 1/8N)
        if e[2] > 0.25 * e[0] + 1.5e-3 or e[1] > 0.6 * e[0] + 1.5e-3:
            raise Violation("differences to 8 N_time for N_time, 2 N_time, 4 N_time = %s do not decrease" % e)
        if e[0] > 5.0 * (hi / lo) / N + 2e-3:
            raise Violation("the difference between N_time = %d and %d is %g" % (N, 8 * N, e[0]))
    ctx.label(spec["fam"], kind, "+".join(sorted(sc["models"])))
    ctx.nontrivial(w > 0.2 or len(sc["models"]) > 1)


res = st.sampled_from([[7, 7, 3], [9, 9, 5], [11, 9, 5]])
base = dict(sc=scat.models(g0=(3, 40)), B=st.one_of(q(1, 100, 1), q(-90, -1, 1)), th=st.one_of(q(0, 180, 5), st.sampled_from([0, 90])),
            ph=q(0, 360, 15))
spec = st.one_of(any_band(res=res), slice_band(res=res))
gen_int = st.fixed_dictionaries(dict(base, spec=spec, nbz=st.sampled_from([1, 1, 2]), N=st.sampled_from([800, 1500, 2500])))
gen_lim = st.fixed_dictionaries(dict(base, spec=spec, kind=st.sampled_from(["zero", "kohler", "steps"]), f=st.sampled_from([0.5, 2.0, 3.3, 30.0, 0.03, 1e-3, 1e-5]),
                                     N=st.sampled_from([100, 200, 400])))

SUBS = [Sub("integral", gen_int, integral, 120, 5000), Sub("limits", gen_lim, limits, 160, 6000)]
