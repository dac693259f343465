import numpy as np
from scipy.constants import Boltzmann, elementary_charge as QE
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, cuprate, ortho, cylinder, q, near, pi, check_fs, surface_exists, tensor, MEV)
from vlib import scat
from vlib.trans import make_cond, sigma0_ref, omega_tau

RULE = ("Bands x temperatures 0.5-150 K x numbers of energies x cuts x fields x scattering models. The energy grid against its "
        "definition; sigma, alpha and beta against sums of T = 0 conductivities of the constant-energy surfaces weighted "
        "independently (and, for smooth bands, of independent ray quadratures: Wiedemann-Franz and Mott at low T); the band left "
        "behind. Non-trivial: the conductivity changes by more than 1 % over the window.")

KB = Boltzmann / MEV        # meV / K


def window(cut, T, n):
    """where -df/dE falls to `cut` of its maximum: cosh^2(x/2) = 1/cut"""
    b = 2 * KB * T * np.arccosh(1 / np.sqrt(cut))
    return np.linspace(-b, b, n)


def mdfde(e, T):
    return 1 / (4 * KB * T) / np.cosh(e / (2 * KB * T)) ** 2


def weights(e, T):
    """weights of sigma, alpha, beta for sigma(e) on the grid, e in meV"""
    w = mdfde(e, T)
    return w, w * (e * MEV) / T / (-QE), w * (e * MEV) ** 2 / T / QE ** 2


def thermal(case, ctx):
    spec = dict(case["spec"])
    ref = Ref(spec)
    T, N, cut = case["T"], case["N"], case["cut"]
    sc, B = case["sc"], case["B"]
    e = window(cut, T, N)
    if not all(surface_exists(ref, x, [min(r, 31) for r in spec["res"]], 0.06 * spec["scale"]) for x in (e[0], 0.0, e[-1])):
        ctx.discard()
    band = make_band(spec)
    band.runBandStructure()
    check_fs(band)
    if B and omega_tau(band, sc, B) > 3:
        B = round(3 * B / omega_tau(band, sc, B), 3)
    kw = dict(N_time=200)
    how = case["how"]
    if how == 0:
        c = make_cond(band, sc, B, 30, 20, T, N_epsilon=N, dfdE_cut_percent=cut, **kw)
    else:
        # the three settings one after the other, in any order, from any other temperature
        c = make_cond(band, sc, B, 30, 20, case["T0"] * T, **dict(kw, **case["kw0"]))
        for name, value in [[("T", T), ("N_epsilon", N), ("dfdE_cut_percent", cut)][i] for i in case["order"]]:
            setattr(c, name, value)
    near("energy grid", c.epsilon_array, e, 1e-6)
    c.runTransport()
    got = [tensor(getattr(c, k), k) for k in ("sigma", "alpha", "beta")]
    # T = 0 conductivities of the surfaces at these energies
    s = []
    for x in e:
        b = make_band(spec)
        b.discretize_fermi_surface(epsilon=x)
        c0 = make_cond(b, sc, B, 30, 20, 0, **kw)
        c0.runTransport()
        s.append(tensor(c0.sigma, "sigma at energy %g" % x))
    s = np.array(s)
    de = e[1] - e[0]
    S = np.max(np.abs(s))
    # rectangles and trapezoids differ by the end points, where the weight is `cut` of the maximum
    for name, g, w in zip(("sigma", "alpha", "beta"), got, weights(e, T)):
        rect = de * np.einsum("e,eij->ij", w, s)
        half = de * 0.5 * (np.abs(w[0]) + np.abs(w[-1])) * S
        near("%s against the thermal average of the constant-energy conductivities" % name, g, rect, 1.0,
             scale=half + (0.002 if not B else 0.02) * de * np.sum(np.abs(w)) * S)
    # the band is back at the Fermi level
    for name in ("kf", "vf", "dkf", "dos_k"):
        v, w = np.asarray(getattr(c.bandObject, name)), np.asarray(getattr(band, name))
        if v.shape != w.shape or not np.allclose(v, w, rtol=1e-6, atol=1e-9 * np.abs(w).max()):
            raise Violation("%s of the band is not that of the Fermi level after a run at T = %g" % (name, T))
    near("filling after the run", c.bandObject.n, band.n, 1e-9, scale=1)
    ctx.label(spec["fam"], "B" if B else "B=0", "+".join(sorted(sc["models"])), "how%d" % how)
    ctx.nontrivial(np.max(np.abs(s[0] - s[-1])) > 0.01 * S)


def low_t(case, ctx):
    """Wiedemann-Franz, Mott and the T = 0 limit, for energies much smaller than the bandwidth"""
    spec = dict(case["spec"])
    ref = Ref(spec)
    T, sc = case["T"], dict(models=["isotropic"], par=dict(gamma_0=case["g"]))
    kt = KB * T
    if not all(surface_exists(ref, x, [min(r, 31) for r in spec["res"]], 0.1 * spec["scale"]) for x in (-20 * kt, 20 * kt)):
        ctx.discard()
    if ref.bandwidth_floor()[0] < 0.3 * ref.bandwidth_floor()[1]:
        ctx.discard()
    if 20 * kt > 0.05 * spec["scale"]:
        ctx.discard()
    band = make_band(spec)
    band.discretize_fermi_surface()
    c0 = make_cond(band, sc)
    c0.runTransport()
    s0 = np.array(c0.sigma)
    c = make_cond(band, sc, 0, 0, 0, T, N_epsilon=31, dfdE_cut_percent=1e-5)
    c.runTransport()
    d = np.sqrt(np.maximum(np.diag(s0), 1e-2 * np.max(np.diag(s0))))
    D = np.outer(d, d)
    near("sigma at low temperature against T = 0", c.sigma / D, s0 / D, 0.008, scale=1)
    L0 = pi ** 2 / 3 * (Boltzmann / QE) ** 2
    near("Wiedemann-Franz: beta / (L0 T)", np.asarray(c.beta) / (L0 * T) / D, s0 / D, 0.015, scale=1)
    # Mott: alpha = -(pi^2/3) kB^2 T / e dsigma/dE, from rays at two energies
    h = 0.03 * spec["scale"]
    ds = (sigma0_ref(ref, spec, sc, h, M=64) - sigma0_ref(ref, spec, sc, -h, M=64)) / (2 * h * MEV)
    mott = -pi ** 2 / 3 * Boltzmann ** 2 * T / QE * ds
    s = pi ** 2 / 3 * Boltzmann ** 2 * T / QE * D / (spec["scale"] * MEV)
    # the mesh is the same at all energies of the window, its error is not: only the in-plane elements are well resolved
    near("Mott formula for alpha_xx, alpha_yy, in units of (pi^2/3) (kB^2 T / e) sigma / (energy scale)",
         np.diag(c.alpha / s)[:2], np.diag(mott / s)[:2], 0.5, scale=max(1.0, np.max(np.abs(np.diag(mott / s)[:2]))))
    ctx.label(spec["fam"])
    ctx.nontrivial(np.max(np.abs(mott / s)) > 0.1)


def own_class():
    """a scattering model of the user that depends on the energy, as the package lets him add one"""
    from cuprates_transport.conductivity import Conductivity
    from cuprates_transport.scattering import scattering_method

    class Own(Conductivity):
        @scattering_method
        def fermi_liquid(self, epsilon):
            return self.a_epsilon_2 * epsilon ** 2 + self.a_abs_epsilon * np.abs(epsilon)

    return Own


def energy_rates(case, ctx):
    """rates that depend on the energy: each constant-energy surface has its own"""
    spec, T, N, cut, sc, B = dict(case["spec"]), case["T"], case["N"], case["cut"], case["sc"], case["B"]
    ref = Ref(spec)
    e = window(cut, T, N)
    if not all(surface_exists(ref, x, [min(r, 31) for r in spec["res"]], 0.06 * spec["scale"]) for x in (e[0], 0.0, e[-1])):
        ctx.discard()
    band = make_band(spec)
    band.runBandStructure()
    check_fs(band)
    if B and omega_tau(band, sc, B) > 2:
        B = round(2 * B / omega_tau(band, sc, B), 3)
    top = case["rise"] * sc["par"]["gamma_0"]       # rate added at the ends of the window
    par = {"a_epsilon_2": round(case["mix"] * top / e[-1] ** 2, 9), "a_abs_epsilon": round((1 - case["mix"]) * top / e[-1], 9)}
    extra = par["a_epsilon_2"] * e ** 2 + par["a_abs_epsilon"] * np.abs(e)
    models = list(sc["models"])
    models.insert(case["at"] % (len(models) + 1), "fermi_liquid")
    c = own_class()(band, Bamp=B, Btheta=case["th"], Bphi=15, T=T, N_epsilon=N, dfdE_cut_percent=cut, N_time=400, rtol=1e-5, atol=1e-5,
                    scattering_models=models, scattering_params=dict(sc["par"], **par))
    if case["again"]:
        c.runTransport()
    c.runTransport()
    got = [tensor(getattr(c, k), k) for k in ("sigma", "alpha", "beta")]
    s = []
    for x, g in zip(e, extra):
        b = make_band(spec, warm=0)
        b.discretize_fermi_surface(epsilon=x)
        more = dict(models=sc["models"], par=dict(sc["par"], gamma_0=sc["par"]["gamma_0"] + g))
        c0 = make_cond(b, more, B, case["th"], 15, 0, N_time=400, rtol=1e-5, atol=1e-5, warm=0)
        c0.runTransport()
        s.append(tensor(c0.sigma, "sigma at energy %g" % x))
    s = np.array(s)
    de, S = e[1] - e[0], np.max(np.abs(s))
    for name, g, w in zip(("sigma", "alpha", "beta"), got, weights(e, T)):
        rect = de * np.einsum("e,eij->ij", w, s)
        half = de * 0.5 * (np.abs(w[0]) + np.abs(w[-1])) * S
        near("%s with rates that depend on the energy" % name, g, rect, 1.0, scale=half + (0.002 if not B else 0.03) * de * np.sum(np.abs(w)) * S)
    ctx.label(spec["fam"], "B" if B else "B=0", "rates alone" if len(models) == 2 else "several models")
    ctx.nontrivial(N > 2 or case["mix"] < 1)


res = st.sampled_from([[9, 9, 5], [11, 11, 5], [9, 11, 7]])
spec = st.one_of(cuprate(res=res), ortho(res=res), cylinder(res=res), cuprate(res=res, b_eq=True).map(lambda s: dict(s, ms=True, res=[9, 9, 3])))
gen_th = st.fixed_dictionaries(dict(spec=spec, T=st.one_of(q(1, 150, 1), q(0.5, 5, 0.5)), N=st.integers(2, 9),
                                    cut=st.sampled_from([0.001, 0.01, 0.05, 0.2, 1e-5]), sc=scat.models(g0=(3, 40)),
                                    B=st.sampled_from([0, 0, 10, 45, -30]), how=st.sampled_from([0, 1, 1]), T0=st.sampled_from([0, 3, 0.3, 0.5, 1]),
                                    kw0=st.sampled_from([{}, dict(N_epsilon=4, dfdE_cut_percent=0.1), dict(N_epsilon=12, dfdE_cut_percent=1e-4)]),
                                    order=st.permutations([0, 1, 2])))
res2 = st.sampled_from([[21, 21, 11], [23, 23, 9]])
gen_low = st.fixed_dictionaries(dict(spec=st.one_of(ortho(res=st.just([15, 15, 9])), cylinder(res=st.just([15, 15, 7])),
                                                    cuprate(res=st.just([15, 15, 9]), tz_min=0.03)),
                                     T=st.one_of(q(0.5, 12, 0.5), q(1, 3, 1)), g=q(2, 30, 1)))

gen_en = st.fixed_dictionaries(dict(spec=spec, T=q(1, 80, 1), N=st.integers(2, 6), cut=st.sampled_from([0.001, 0.01, 0.05, 0.2]), sc=scat.models(g0=(3, 40), smooth=True),
                                    B=st.sampled_from([0, 0, 15, -40]), th=q(0, 90, 15), rise=q(0.3, 2, 0.1), mix=st.sampled_from([0, 0.5, 1]), at=st.integers(0, 3),
                                    again=st.booleans()))

SUBS = [Sub("thermal", gen_th, thermal, 100, 4000), Sub("energy", gen_en, energy_rates, 50, 2500), Sub("low_t", gen_low, low_t, 24, 800)]
