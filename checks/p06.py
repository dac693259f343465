import numpy as np
from scipy.constants import e as QE
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, cuprate, ortho, cylinder, ellipsoid, pockets, q, near, pi, check_fs, hbar, electron_mass, MEV, ANG, PS)
from vlib import scat

RULE = ("Bands (down to small sections) with one closed orbit on every kz slice (warped elliptic cylinders, orthorhombic in-plane closed, tetragonal "
        "cuprates) x lattices x resolutions x scattering models x fields. Mass against hbar^2/2pi dA/dE of each "
        "slice (independent contour quadrature, and enclosed areas at two energies); omega_c tau against "
        "e B v tau / (hbar k). Non-trivial: every slice has an orbit away from saddle points.")


def orbit(ref, z, eps=0.0, M=160, K=241):
    """(dA/dE in A^-2/meV, min/median in-plane gradient) of the contour at height z"""
    tot, gs = 0.0, []
    for d in (0, 1):
        o = 1 - d
        u = (-1 + (2 * np.arange(M) + 1) / M) * ref.kmax[o]
        w = np.linspace(-ref.kmax[d], ref.kmax[d], K)

        def en(p, s):
            k = [None, None, np.full(np.broadcast(p, s).shape, z)]
            k[o], k[d] = p, s
            return ref.energy(*k) - eps
        sg = en(u[:, None], w[None, :]) > 0
        i, j = np.nonzero(sg[:, 1:] != sg[:, :-1])
        lo, hi, slo, uu = w[j], w[j + 1], sg[i, j], u[i]
        for _ in range(35):
            mid = 0.5 * (lo + hi)
            s = en(uu, mid) > 0
            lo, hi = np.where(s == slo, mid, lo), np.where(s == slo, hi, mid)
        k = [None, None, np.full(len(uu), z)]
        k[o], k[d] = uu, 0.5 * (lo + hi)
        g = ref.grad(*k)[:2]
        pu = (g * ref.kmax[:2, None]) ** 4
        # int dk / |g|, dk = |g|/|g_d| du
        tot += np.sum(pu[d] / pu.sum(0) / np.maximum(np.abs(g[d]), 1e-300)) * 2 * ref.kmax[o] / M
        gs.append(np.sqrt((g ** 2).sum(0)))
    gs = np.hstack(gs)
    return tot, (gs.min() / np.median(gs) if gs.size else 0.0)


def empty(ref, z, eps):
    g = [np.linspace(-m, m, 301) for m in ref.kmax[:2]]
    e = ref.energy(*np.meshgrid(*g, [z], indexing="ij")) - eps
    w = 0.02 * np.max(np.abs(e))
    return np.all(e > w) or np.all(e < -w)


def small(ref, z, eps):
    g = [np.linspace(-m, m, 101) for m in ref.kmax[:2]]
    f = np.mean(ref.energy(*np.meshgrid(*g, [z], indexing="ij")) > eps)
    return min(f, 1 - f) < 0.03


def mass(case, ctx):
    spec = dict(case["spec"], ms=True, res=case["res"])
    spec["k_max"] = [x * f for x, f in zip(spec["k_max"], case["kf"])]
    eps = case["eps"] * spec["scale"] * 0.05
    ref = Ref(spec)
    N = case["res"][2] + (1 - case["res"][2] % 2)
    zs = np.linspace(-ref.kmax[2], ref.kmax[2], N)
    tot = []
    for z in zs:
        d, m = orbit(ref, z, eps)
        if empty(ref, z, eps):      # no orbit at this height: no contribution to the average over kz
            tot.append(0.0)
            continue
        if m < 0.25 or small(ref, z, eps):
            ctx.discard()           # a slice without orbit or close to a saddle point
        tot.append(d)
    if not any(tot):
        ctx.discard()
    want_incl = np.mean(tot)
    # average over a period without repeating its end, or with half weights: also averages over kz
    w = np.ones(N)
    w[0] = w[-1] = 0.5
    alts = [want_incl, np.sum(w * np.array(tot)) / w.sum()]
    conv = hbar ** 2 / (2 * pi) / (MEV * ANG ** 2) / electron_mass
    band = make_band(spec)
    band.discretize_fermi_surface(epsilon=eps)
    check_fs(band)
    band.mass_func()
    m = float(band.mass)
    tol = case["tol"]
    if not np.isfinite(m) or min(abs(m / conv - x) / x for x in alts) > tol:
        raise Violation("mass = %g m_e, hbar^2/2pi dA/dE averaged over kz gives %g m_e" % (m, want_incl * conv))
    if spec["fam"] == "cylinder" and eps == 0:
        # E = t ((a kx)^2 + ry (b ky)^2): m = hbar^2 / (2 t a b sqrt(ry))
        t = spec["params"]["t"] * spec["scale"] * MEV
        ana = hbar ** 2 / (2 * t * spec["a"] * spec["b"] * np.sqrt(spec["ry"]) * ANG ** 2) / electron_mass
        near("mass of a parabolic section", m, ana, tol)
    # the mass does not depend on how often it is asked for
    band.mass_func()
    near("mass computed twice", band.mass, m, 1e-9)
    ctx.label(spec["fam"], "a=b" if spec["a"] == spec["b"] else "a!=b", "eps" if eps else "eps0")
    ctx.nontrivial()


def saddle(case, ctx):
    """slices close to a saddle point, with slow states: every stored state counts with the inverse of its velocity"""
    spec = dict(case["spec"], ms=True, res=case["res"])
    p = spec["params"]
    spec["params"] = dict(p, tz=case["tz"], mu=2 * (p["tx"] - p["ty"]) * case["sign"] + case["delta"])
    ref, band = Ref(spec), make_band(spec)
    band.discretize_fermi_surface()
    check_fs(band)
    v = ref.velocity(*band.kf.astype(float))
    vp = np.hypot(v[0], v[1])
    if np.min(vp) < 1e-4 * np.max(vp):
        ctx.discard()
    band.mass_func()
    N = case["res"][2] + (1 - case["res"][2] % 2)
    near("mass, against hbar / 2 pi of the stored arcs over the velocities, averaged over kz", band.mass,
         hbar / (2 * pi) / N * np.sum(band.dks / ANG / vp) / electron_mass, 1e-3)
    ctx.label("slowest state 1/%d" % 4 ** int(np.log(np.max(vp) / np.min(vp)) / np.log(4)))
    ctx.nontrivial(np.min(vp) < 0.1 * np.max(vp))


def omegac(case, ctx):
    from cuprates_transport.conductivity import Conductivity
    spec = dict(case["spec"], ms=True, res=case["res"])
    band = make_band(spec)
    band.discretize_fermi_surface()
    check_fs(band)
    sc = case["sc"]
    c = Conductivity(band, Bamp=case["B"][0], Btheta=case["th"], **scat.kwargs(sc))
    vals = []
    for B in case["B"]:
        c.Bamp = B
        c.omegac_tau_func()
        k, v = band.kf, band.vf
        g = scat.gamma(sc["models"], sc["par"], spec, k, v, np.max(band.dos_k))
        wc = QE * B * np.sqrt(v[0] ** 2 + v[1] ** 2) / (hbar * np.sqrt(k[0] ** 2 + k[1] ** 2) / ANG) * PS     # rad / ps
        got = np.asarray(c.omegac_tau_k, float)
        if got.shape != g.shape or not np.all(np.isfinite(got)):
            raise Violation("omegac_tau_k has shape %s or is not finite" % (got.shape,))
        good, bad = wc / g, wc * g
        if np.allclose(got, good, rtol=1e-6, atol=0):
            pass
        elif np.allclose(got, bad, rtol=1e-6, atol=0):
            ctx.known("KF2", "omega_c * tau asked for, omega_c / tau returned")
        else:
            i = int(np.argmax(np.abs(got - good)))
            raise Violation("omega_c tau = %g at point %d for B = %g, e B v tau / (hbar k) = %g (and omega_c / tau = %g)" %
                            (got[i], i, B, good[i], bad[i]))
        vals.append(got / B)
    for x in vals[1:]:
        near("omega_c tau / B at another field", x, vals[0], 1e-6)
    ctx.label(spec["fam"], "+".join(sorted(sc["models"])))
    ctx.nontrivial(len(sc["models"]) > 1)


@st.composite
def tiny(draw, fmin=0.06):
    """parabolic cylinder of a small section"""
    s = draw(cylinder())
    r = draw(q(fmin, 0.35, 0.01)) * pi * min(1.0, np.sqrt(s["ry"]))
    mu = s["params"]["t"] * r * r
    return dict(s, params=dict(s["params"], mu=round(mu, 6), tz=round(draw(q(0, 0.15, 0.05)) * mu / 2, 6)))


def pocket(case, ctx):
    """small sections: the parabolic mass hbar^2 / (2 t a b sqrt(ry)) on every slice"""
    spec = dict(case["spec"], ms=True, res=case["res"])
    spec["k_max"] = [x * f for x, f in zip(spec["k_max"], case["kf"])]
    band = make_band(spec)
    band.discretize_fermi_surface()
    check_fs(band)
    band.mass_func()
    t = spec["params"]["t"] * spec["scale"] * MEV
    near("mass of a small parabolic section", float(band.mass),
         hbar ** 2 / (2 * t * spec["a"] * spec["b"] * np.sqrt(spec["ry"]) * ANG ** 2) / electron_mass, 0.02)
    ctx.nontrivial()


SMALLZ = st.integers(3, 8)
closed = st.one_of(cylinder(), ellipsoid(), ortho(), cuprate(b_eq=True), cylinder(b_eq=True), cylinder(b_eq=False))
gen_mass = st.one_of(
    st.fixed_dictionaries(dict(spec=closed, kf=st.sampled_from([[1, 1, 1], [1, 1, 0.5]]), eps=st.sampled_from([0, 0, 1, -1]),
                               res=st.tuples(st.integers(40, 70), st.integers(10, 70), SMALLZ).map(list), tol=st.just(0.005))),
    st.fixed_dictionaries(dict(spec=closed, kf=st.just([1, 1, 1]), eps=st.just(0),
                               res=st.tuples(st.integers(15, 25), st.integers(15, 25), SMALLZ).map(list), tol=st.just(0.03))))
gen_omega = st.fixed_dictionaries(dict(
    spec=st.one_of(cylinder(), ortho(), cuprate(b_eq=True), tiny(0.03), pockets()), res=st.tuples(st.integers(9, 25), st.integers(9, 25), SMALLZ).map(list),
    sc=scat.models(), th=st.sampled_from([0, 30, 85]), B=st.lists(q(1, 90, 1), min_size=1, max_size=3)))

gen_saddle = st.fixed_dictionaries(dict(spec=ortho(odd=False), sign=st.sampled_from([1, -1]), delta=st.sampled_from([1e-2, -1e-2, 1e-3, -1e-3, 1e-4, -1e-4, 1e-5]),
    tz=st.sampled_from([0.0, 0.0, 1e-3, 0.05]), res=st.tuples(st.integers(12, 90), st.integers(12, 60), SMALLZ).map(list)))

gen_pocket = st.fixed_dictionaries(dict(spec=tiny(), kf=st.sampled_from([[1, 1, 1], [1, 1, 0.5]]),
                                        res=st.tuples(st.integers(60, 120), st.integers(10, 70), SMALLZ).map(list)))

SUBS = [Sub("pocket", gen_pocket, pocket, 60, 3000), Sub("mass", gen_mass, mass, 160, 6000), Sub("saddle", gen_saddle, saddle, 80, 3000), Sub("omegac", gen_omega, omegac, 100, 4000)]
