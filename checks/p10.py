import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, cuprate, ortho, cylinder, ellipsoid, afband, q, near, pi, check_fs, tensor, surface_exists, meshable)
from vlib import scat
from vlib.trans import make_cond, omega_tau, gamma_bounds

RULE = ("Bands of the zoo (also without inversion symmetry about the zone centre) x 1-3 scattering models x fields 1-100 T of "
        "any direction x temperature (T = 0, some T > 0). sigma(B) against the transpose of sigma(-B); eigenvalues of the "
        "symmetric part; longitudinal components against zero field. Non-trivial: the antisymmetric part is "
        "above 1 % of the tensor.")


def onsager(case, ctx):
    """the error of a coarse mesh vanishes on a finer one, a wrong equation stays wrong"""
    try:
        judge(case, ctx, 1)
    except Violation:
        judge(case, ctx, 2)


def judge(case, ctx, fine):
    spec = dict(case["spec"])
    ref = Ref(spec)
    if not meshable(ref, spec, 0, 0.1):
        ctx.discard()
    gmin, gmed = ref.bandwidth_floor()
    if gmin < 0.15 * gmed:
        ctx.discard()
    T = case["T"]
    if T:
        spec["res"] = [17, 17, 9]
        if spec["fam"] == "ellipsoid" or not all(surface_exists(ref, x, (17, 17, 9), 5.0) for x in (-12.0, 12.0)):
            ctx.discard()
    spec["res"] = [fine * (x - 1) + 1 for x in spec["res"]]
    band = make_band(spec)
    band.discretize_fermi_surface()
    check_fs(band)
    sc = case["sc"]
    kw = dict(T=T, N_epsilon=5, dfdE_cut_percent=0.05) if T else {}
    N = 400
    B, th, ph = case["B"], case["th"], case["ph"]
    if omega_tau(band, sc, B) > 8:
        B = round(B * 8 / omega_tau(band, sc, B), 3)
    c = make_cond(band, sc, B, th, ph, N_time=N, **kw)
    c.runTransport()
    s1, a1 = tensor(c.sigma, "sigma(B)"), np.array(c.alpha)
    if case["how"] == 0:
        c.Bamp = -B
    elif case["how"] == 1:
        c.Btheta, c.Bphi = 180 - th, ph + 180
    else:
        c = make_cond(band, sc, B, th + 180, ph, N_time=N, **kw)
    c.runTransport()
    s2, a2 = tensor(c.sigma, "sigma(-B)"), np.array(c.alpha)
    c0 = make_cond(band, sc, 0, 0, 0, N_time=N, **kw)
    c0.runTransport()
    s0 = tensor(c0.sigma, "sigma(0)")
    d = np.sqrt(np.maximum(np.diag(s0), 1e-3 * np.max(np.diag(s0))))
    D = np.outer(d, d)
    lo, hi = gamma_bounds(sc)
    ratio = hi / lo
    # anisotropic rates on a coarse mesh make the stored weights less invariant along the orbit
    tol = case["tol"] * (1 + 0.5 * (ratio - 1))
    near("sigma(B) against the transpose of sigma(-B), in units of sqrt(sigma_ii(0) sigma_jj(0))", s1 / D, s2.T / D, tol, scale=1)
    if T and np.max(np.abs(a1)) > 0:
        s = np.sqrt(np.outer(np.diag(c0.beta), np.diag(s0)))
        s = np.maximum(s, 1e-3 * np.max(s))
        near("alpha(B) against the transpose of alpha(-B)", a1 / s, a2.T / s, tol, scale=1)
    for s in (s1, s2):
        ev = np.linalg.eigvalsh((s + s.T) / 2 / D)
        if ev[0] < -tol:
            raise Violation("the dissipative part of sigma has a negative eigenvalue %g" % ev[0])
    if len(sc["models"]) == 1:
        over = np.max(np.diag(s1) / d ** 2 - np.diag(s0) / d ** 2)
        if over > 4.5 / N + 0.005:
            raise Violation("a longitudinal conductivity in the field exceeds its zero-field value by %g" % over)
    anti = np.max(np.abs(s1 - s1.T) / D) / 2
    ctx.label(spec["fam"], "T" if T else "T0", "+".join(sorted(sc["models"])))
    ctx.nontrivial(anti > 0.01)


res = st.sampled_from([[21, 21, 11], [25, 23, 9], [23, 23, 13]])
resell = st.sampled_from([[25, 25, 25], [29, 27, 25]])
bands = st.one_of(cuprate(res=res), ortho(res=res), cylinder(res=res), ellipsoid(res=resell))
gen = st.fixed_dictionaries(dict(
    spec=bands, sc=scat.models(g0=(5, 40)), B=st.one_of(q(1, 100, 1), q(-80, -1, 1)), th=q(0, 180, 5), ph=q(0, 360, 15),
    T=st.sampled_from([0] * 7 + [30]), how=st.integers(0, 2), tol=st.just(0.018)))

SUBS = [Sub("onsager", gen, onsager, 280, 6000)]
