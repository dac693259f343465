import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, any_band, slice_band, nearly_fourfold, cuprate, ortho, cylinder, ellipsoid, q, near, pi, check_fs, tensor,
                        surface_exists, meshable)
from vlib import scat
from vlib.trans import make_cond, sigma0, sigma0_ref

RULE = ("Bands of the zoo x lattices x resolutions x both algorithms x 1-3 scattering models x numbers of zones x irrelevant "
        "settings (angles, time steps, tolerances). sigma against the Boltzmann sum over the stored surface (1e-5) and, for "
        "smooth bands, against an independent ray quadrature (1.5-2 % at a fine resolution); symmetry, positivity, "
        "independence and scaling (rates times 1e-7 to 1e6). Non-trivial: an anisotropic scattering rate or a low-symmetry tensor.")


def formula(case, ctx):
    spec = dict(case["spec"], nbz=case["nbz"])
    ref = Ref(spec)
    eps = case["eps"] * spec["scale"] * 0.05
    if not meshable(ref, spec, eps, 0.02):
        ctx.discard()
    band = make_band(spec)
    if case["run"]:
        if np.prod(spec["res"]) > 1500:
            ctx.discard()
        band.runBandStructure(epsilon=eps)
    else:
        band.discretize_fermi_surface(epsilon=eps)
    check_fs(band)
    vn = np.sqrt((band.vf ** 2).sum(0))
    if np.min(vn) < 1e-6 * np.max(vn):
        ctx.discard()               # a vertex exactly on a van Hove point
    sc = dict(case["sc"])       # rates that vary by large factors over the surface
    sc["par"] = {n: v * (case["wide"] if n in ("gamma_k", "gamma_k_sin", "gamma_dos_max") else 1) for n, v in sc["par"].items()}
    c = make_cond(band, sc, 0, case["th"], case["ph"], N_time=case["N"])
    c.runTransport()
    s = tensor(c.sigma, "sigma")
    want = sigma0(band, spec, sc, spec["nbz"])
    near("sigma from the stored Fermi surface", s, want, 1e-5)
    S = np.max(np.abs(s))
    near("symmetry of sigma", s, s.T, 1e-6)
    ev = np.linalg.eigvalsh((s + s.T) / 2)
    if ev[0] < -1e-6 * S:
        raise Violation("sigma has a negative eigenvalue %g" % ev[0])
    for name in ("alpha", "beta"):
        near(name + " at T = 0", tensor(getattr(c, name), name), np.zeros((3, 3)), 0)
    # extreme rates
    g = scat.gamma(sc["models"], sc["par"], spec, band.kf.astype(float), band.vf, np.max(band.dos_k))
    near("gamma_tot_min", c.gamma_tot_min, g.min(), 1e-5)
    near("gamma_tot_max", c.gamma_tot_max, g.max(), 1e-5)
    # irrelevant settings
    c.Btheta, c.Bphi, c.N_time = case["th2"], case["ph"] + 33, case["N"] + 17
    c.runTransport()
    near("sigma with other angles and time steps", c.sigma, s, 1e-9)
    # scaling with the rate
    f = case["f"]
    c.scattering_params = {k: (v * f if k.startswith("gamma") else v) for k, v in sc["par"].items()}
    c.runTransport()
    near("sigma for %g times the rates" % f, np.asarray(c.sigma) * f, s, 1e-6)
    # one zone
    if spec["nbz"] != 1:
        b1 = make_band(dict(spec, nbz=1))
        b1.discretize_fermi_surface(epsilon=eps)
        c1 = make_cond(b1, sc)
        c1.runTransport()
        near("sigma per zone", np.asarray(c1.sigma) / spec["nbz"], s, 1e-6)
    ctx.label(spec["fam"], "slices" if spec.get("ms") else "cubes", "+".join(sorted(sc["models"])))
    ctx.nontrivial(len(sc["models"]) > 1 or abs(s[0, 0] - s[1, 1]) > 0.01 * S)


def absolute(case, ctx):
    spec = dict(case["spec"], nbz=case["nbz"])
    ref = Ref(spec)
    gmin, gmed = ref.bandwidth_floor()
    if gmin < 0.3 * gmed:
        ctx.discard()
    sc = case["sc"]
    want = sigma0_ref(ref, spec, sc, nbz=spec["nbz"], M=64)
    band = make_band(dict(spec, res=case["res"]))
    band.discretize_fermi_surface()
    c = make_cond(band, sc)
    c.runTransport()
    s = tensor(c.sigma, "sigma")
    d = np.sqrt(np.diag(want))
    d = np.maximum(d, 1e-3 * d.max())
    # cusps of |cos 2phi|^p and the sampled maximum of the density of states need more room
    tol = 0.02 if len(sc["models"]) == 1 else 0.04
    near("sigma against e^2/4pi^3 int dS v v tau/(hbar v) by rays", s / np.outer(d, d), want / np.outer(d, d), tol, scale=1)
    ctx.label(spec["fam"], "+".join(sorted(sc["models"])))
    ctx.nontrivial()


EPS = st.sampled_from([0, 0, 1, -1])
ANG_ = q(-200, 400, 5)
small = st.sampled_from([[9, 9, 5], [11, 11, 7], [15, 13, 9], [21, 21, 5], [12, 10, 6]] * 3 + [[61, 57, 25]])
gen_formula = st.fixed_dictionaries(dict(
    spec=st.one_of(any_band(res=small), slice_band(res=small), any_band(res=small), slice_band(res=small), nearly_fourfold(res=small).map(lambda s: dict(s, ms=True))), nbz=st.sampled_from([1, 1, 2]), eps=EPS, sc=scat.models(), wide=st.sampled_from([1, 1, 1, 10, 100, 1000]),
    th=ANG_, th2=ANG_, ph=ANG_, N=st.integers(10, 900), f=st.sampled_from([0.3, 2.0, 5.0, 1e-2, 1e-4, 1e-7, 1e3, 1e6]), run=st.sampled_from([False, False, False, True])))
gen_abs = st.fixed_dictionaries(dict(
    spec=st.one_of(cuprate(tz_min=0.02), ortho(), cylinder(), ellipsoid()), nbz=st.sampled_from([1, 1, 2]), sc=scat.models(),
    res=st.tuples(st.integers(62, 70), st.integers(62, 70), st.integers(46, 52)).map(list)))

SUBS = [Sub("formula", gen_formula, formula, 500, 20000), Sub("absolute", gen_abs, absolute, 160, 6000)]
