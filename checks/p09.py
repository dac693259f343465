import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, ellipsoid, q, near, pi, check_fs, tensor, hbar, QE, MEV, ANG, PS)
from vlib.trans import make_cond, field

RULE = ("Ellipsoidal pockets: masses, centres (also off the zone centre), electrons and holes, a = b and a != b, energy "
        "scales x isotropic rates x fields of 0-120 T with omega_c tau up to ~8, any direction and sign. The tensor against "
        "n e^2 [M/tau -+ e [B]]^-1, all components. Non-trivial: omega_c tau > 0.1 and a field off the axes or a hole pocket.")


def drude(case, ctx):
    spec = dict(case["spec"], res=case["res"])
    ell = spec["ell"]
    t = spec["params"]["t"] * spec["scale"] * MEV
    lat = np.array([spec["a"], spec["b"], spec["c"]]) * ANG
    m = hbar ** 2 / (2 * t * lat ** 2 * np.array([1, ell["cy"], ell["cz"]]))
    mu = spec["params"]["mu"] * spec["scale"] * MEV
    r = np.sqrt(mu / (t * np.array([1, ell["cy"], ell["cz"]]))) / lat
    n = 2 / (2 * pi) ** 3 * 4 / 3 * pi * np.prod(r)
    sg = ell["sg"]
    # choose the field or the rate so that omega_c tau is what the case asks for
    wt = case["wt"]
    mc = np.cbrt(np.prod(m))
    B = case["B"]
    gamma = round(float(QE * abs(B) / mc / wt * 1e-12), 4) if B else case["g"]
    if not 1e-3 < gamma < 1e5:
        ctx.discard()
    tau = PS / gamma
    band = make_band(spec)
    band.discretize_fermi_surface()
    check_fs(band)
    c = make_cond(band, dict(models=["isotropic"], par=dict(gamma_0=gamma)), B, case["th"], case["ph"], N_time=case["N"])
    c.runTransport()
    s = tensor(c.sigma, "sigma")
    bx, by, bz = field(B, case["th"], case["ph"])
    X = np.array([[0, -bz, by], [bz, 0, -bx], [-by, bx, 0]])
    # m dv/dt = sg(-e E - e v x B) - m v / tau
    want = n * QE ** 2 * np.linalg.inv(np.diag(m) / tau - sg * QE * X)
    # the meshed pocket is slightly smaller: compare the shape of the tensor tightly and its size loosely
    c0 = make_cond(band, dict(models=["isotropic"], par=dict(gamma_0=gamma)), 0)
    c0.runTransport()
    s0 = tensor(c0.sigma, "sigma at B = 0")
    w0 = n * QE ** 2 * tau / m
    h = 2 * pi / (np.array(case["res"]) - 1) / (r * lat)          # steps in units of the radii
    near("sigma / sigma_Drude at B = 0", np.diag(s0) / w0, np.ones(3), 0.015 + 0.8 * np.max(h) ** 2, scale=1)
    d = np.sqrt(n * QE ** 2 * tau / m)
    near("sigma without field, off the diagonal", (s0 - np.diag(np.diag(s0))) / np.outer(d, d), np.zeros((3, 3)), 0.01, scale=1)
    # velocities of a parabolic band evolve linearly, so sigma(B) = <v v> P(B) with the propagator P alone depending on
    # the field: the error of the mesh is that of sigma(0)
    got = np.linalg.solve(s0, s) * d[:, None] / d[None, :]
    near("propagator sigma(0)^-1 sigma(B) against that of n e^2 [M/tau -+ e[B]]^-1",
         got, np.diag(1 / w0) @ want * d[:, None] / d[None, :], 0.004 + 4.5 / case["N"], scale=1)
    s = np.diag(w0) @ np.linalg.solve(s0, s)
    f = 1.0
    # Hall coefficient and resistivity along the field, for fields along an axis
    rho = np.linalg.inv(s)
    if wt > 0.3 and B:
        # rho_ij - rho_ji = -+ 2 eps_ijk B_k / (n e)
        anti = (rho - rho.T) / 2 * n * QE * f
        wanta = -sg * X
        near("n e times the antisymmetric resistivity against the field", anti, wanta, 0.03 + 6 / case["N"] * max(1, 1 / wt) + 0.02 * max(1, 1 / wt),
             scale=abs(B))
    ctx.label("electrons" if sg > 0 else "holes", "a=b" if spec["a"] == spec["b"] else "a!=b", "B=0" if not B else ("wt>1" if wt > 1 else "wt<=1"))
    ctx.nontrivial(bool(B) and wt > 0.1 and (sg < 0 or case["th"] % 90 != 0))


gen = st.fixed_dictionaries(dict(
    spec=ellipsoid(), res=st.sampled_from([[37, 37, 37], [41, 43, 39], [45, 41, 43]]),
    B=st.one_of(q(1, 120, 1), q(-60, -1, 1), st.just(0)), g=q(1, 50, 1), wt=st.sampled_from([0.05, 0.2, 0.5, 1, 2, 4, 8]),
    th=st.one_of(q(0, 180, 5), st.sampled_from([0, 90, 180, -30, 200])), ph=st.one_of(q(0, 360, 15), st.sampled_from([0, 90, -45])),
    N=st.sampled_from([500, 500, 900])))

SUBS = [Sub("drude", gen, drude, 400, 10000)]
