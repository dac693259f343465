import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, cuprate, ortho, cylinder, afband, ellipsoid, q, near, pi, clamped_class, surface_exists)

RULE = ("Bands of the zoo x targets between two achievable dopings x starting chemical potentials, alone and in sets "
        "of 1-3 bands, before and after discretisations, solver tolerances, repeated searches. The doping at the solution "
        "-+ the tolerance must bracket the target, mu be common, the other parameters untouched, and nothing stale. "
        "The filling grids are clamped to a few thousand points (the default has 500^3). Non-trivial: mu moves by "
        "more than ten tolerances.")

STALE = ("kf", "vf", "dkf", "dos_k", "dks", "dkz", "mass", "dos_epsilon")


def start(band, op):
    if op == "run":
        band.runBandStructure()
    elif op == "fs":
        band.discretize_fermi_surface()
        band.dos_epsilon_func()
        if band.march_square:
            band.mass_func()
    elif op == "doping":
        band.doping()


def snapshot(band):
    return {k: (None if getattr(band, k, None) is None else np.array(getattr(band, k), float)) for k in STALE}


def not_stale(band, spec, mu, what):
    """every array is None or that of a fresh object with the final mu"""
    held = {k: v for k, v in snapshot(band).items() if v is not None}
    if held:
        fresh = make_band(dict(spec, params=dict(spec["params"], mu=mu)), type(band), warm=0)
        fresh.discretize_fermi_surface()
        fresh.dos_epsilon_func()
        if fresh.march_square:
            fresh.mass_func()
        for k, v in held.items():
            w = np.array(getattr(fresh, k), float)
            if w.shape != v.shape or not np.allclose(v, w, rtol=1e-6, atol=1e-9 * np.max(np.abs(w))):
                raise Violation("%s: %s is that of another chemical potential" % (what, k))


def bracket(what, f, mu, target, tol):
    lo, hi = f(mu - tol), f(mu + tol)
    lo, hi = min(lo, hi), max(lo, hi)
    if not (lo - 1e-9 <= target <= hi + 1e-9):
        raise Violation("%s: the doping at the solution mu = %.6f -+ %g ranges over [%.6f, %.6f], the target is %.6f" %
                        (what, mu, tol, lo, hi, target))


def solve(case, ctx):
    import cuprates_transport.bandstructure as bsm
    specs = case["specs"]
    multi = case["multi"] or len(specs) > 1
    if multi:
        # a common chemical potential is only defined when all bands count mu in the same way
        specs = [s for s in specs if not s["model"].startswith("-(")]
        if not specs:
            ctx.discard()
    cls = clamped_class(case["lim"])
    specs = [dict(s, res=[15, 15, 7]) for s in specs]
    bands = [make_band(s, cls) for s in specs]
    probe = [make_band(s, cls) for s in specs]

    def p_of(mu):
        n = 0.0
        for b in probe:
            b["mu"] = mu
            b.doping()
            n += b.n
        return 1 - n

    def total():
        n = 0.0
        for b in bands:
            b.doping()
            n += b.n
        return 1 - n

    moved = False
    prev_mu = [s["params"]["mu"] for s in specs]
    for frac, op, ptol in case["targets"]:
        # the target lies between the dopings at two chemical potentials within the bracket of the solver
        m0 = np.mean([s["params"]["mu"] for s in specs])
        w = 0.3 + 0.3 * abs(m0)
        p1, p2 = p_of(m0 - w), p_of(m0 + w)
        if abs(p1 - p2) < 0.02:
            ctx.discard()
        target = round(p1 + frac * (p2 - p1), 4)
        ends = p_of(-10), p_of(10)
        if not min(ends) + 1e-6 < target < max(ends) - 1e-6:
            ctx.discard()
        for b, s in zip(bands, specs):
            if surface_exists(Ref(s, dict(s["params"], mu=b["mu"])), 0, (15, 15, 7)):
                start(b, op)
        kw = {} if ptol is None else dict(ptol=ptol)
        if multi:
            bsm.set_mu_to_doping(bands, target, **kw)
        else:
            bands[0].set_mu_to_doping(target, **kw)
        tol = 0.001 if ptol is None else ptol
        mus = [b["mu"] for b in bands]
        if any(not np.isfinite(float(m)) for m in mus) or max(mus) - min(mus) > 1e-12:
            raise Violation("chemical potentials after the search: %s" % mus)
        mu = float(mus[0])
        bracket("search for p = %g" % target, p_of, mu, target, 1.5 * tol + 1e-7)
        for b, s in zip(bands, specs):
            d = dict(b.band_params)
            d.pop("mu")
            if d != {k: v for k, v in s["params"].items() if k != "mu"} or b.energy_scale != s["scale"]:
                raise Violation("the search changed other parameters: %s" % d)
            for name in ("n", "p"):
                v = getattr(b, name)
                if v is not None:
                    f = make_band(dict(s, params=dict(s["params"], mu=mu)), cls, warm=0)
                    f.doping()
                    near("stored %s after the search" % name, v, getattr(f, name), 1e-9, scale=1)
            not_stale(b, s, mu, "after the search")
        near("doping recomputed", total(), p_of(mu), 1e-9, scale=1)
        moved = moved or max(abs(mu - m) for m in prev_mu) > 10 * tol
        prev_mu = [mu] * len(bands)
        ctx.label("multi" if multi else "single", "start:" + op)
    ctx.nontrivial(moved)


T = st.tuples(q(0.1, 0.9, 0.05), st.sampled_from(["none", "run", "fs", "doping"]), st.sampled_from([None, None, 0.02, 1e-4])).map(list)
B = st.one_of(cuprate(), ortho(), cylinder(), afband(), ellipsoid())
S = st.one_of(cuprate().map(lambda s: dict(s, ms=True)), B)
gen_single = st.fixed_dictionaries(dict(
    specs=S.map(lambda s: [s]), multi=st.just(False), targets=st.lists(T, min_size=1, max_size=2),
    lim=st.tuples(st.integers(21, 31), st.integers(21, 31), st.integers(7, 11)).map(list)))
gen_multi = st.fixed_dictionaries(dict(
    specs=st.lists(S, min_size=1, max_size=3), multi=st.just(True), targets=st.lists(T, min_size=1, max_size=2),
    lim=st.tuples(st.integers(21, 31), st.integers(21, 31), st.integers(7, 11)).map(list)))

SUBS = [Sub("single", gen_single, solve, 160, 6000), Sub("multi", gen_multi, solve, 160, 6000)]
