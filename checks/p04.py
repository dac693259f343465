import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import Ref, make_band, any_band, q, near, pi, clamped_class, count_ranges, surface_exists

RULE = ("Bands of the zoo x lattices x zone bounds x number of zones x filling grids (4-50 points per axis). Counts are "
        "compared to an independent count on the same number of points (inclusive, periodic or midpoint grid, exact up to "
        "ties) and to bounds of the exact filling; chemical potential shifts, energy scale changes, per-kz "
        "fillings, several bands and angle sweeps are checked for consistency. Non-trivial: 0.02 < n < 1.98.")


def check_count(what, got, ranges):
    if not np.all(np.isfinite(got)):
        raise Violation("%s = %s" % (what, got))
    for lo, hi in ranges:
        if np.shape(got) == np.shape(lo) and np.all(got >= lo - 1e-9) and np.all(got <= hi + 1e-9):
            return
    raise Violation("%s = %s, an independent count on the same grid gives %s" % (what, got, [np.round(r[0], 5).tolist() for r in ranges]))


def one(case, ctx):
    spec = dict(case["spec"], nbz=case["nbz"], ms=case["ms"])
    spec["k_max"] = [x * f for x, f in zip(spec["k_max"], case["kf"])]
    res = case["res"]
    ref = Ref(spec)
    band = make_band(spec)
    ranges = count_ranges(ref, res, spec["nbz"])
    p = band.doping(res_x=res[0], res_y=res[1], res_z=res[2])
    n = band.n
    check_count("filling", n, ranges)
    near("doping returned", p, 1 - n, 1e-12, scale=1)
    near("stored doping", band.p, 1 - n, 1e-12, scale=1)
    n2 = band.filling(res_x=res[0], res_y=res[1], res_z=res[2])
    near("filling()", n2, n, 1e-12, scale=1)
    band.update_filling(res[0], res[1], res[2])
    near("update_filling()", band.n, n, 1e-12, scale=1)
    if not (-1e-12 <= n <= 2 / spec["nbz"] + 1e-12):
        raise Violation("filling %g out of [0, 2] (per zone)" % n)
    # per kz
    nz, pz = band.doping_per_kz(res_x=res[0], res_y=res[1], res_z=res[2])
    check_count("filling per kz", np.asarray(nz), count_ranges(ref, res, spec["nbz"], per_kz=True))
    near("mean of the filling per kz", np.mean(nz), n, 1e-9, scale=1)
    near("doping per kz", np.asarray(pz), 1 - np.asarray(nz), 1e-12, scale=1)
    # energy scale
    band.energy_scale = spec["scale"] * case["fscale"]
    band.doping(*res)
    check_count("filling after a change of the energy scale", band.n, ranges)
    # chemical potential
    prev = n
    dmu = case["dmu"]
    sign = -1 if spec["model"].startswith("-(") else 1      # the hole pockets contain +mu
    for i in range(1, 4):
        band["mu"] = round(spec["params"]["mu"] + i * dmu, 6)
        band.doping(*res)
        check_count("filling after a change of mu", band.n,
                    count_ranges(Ref(spec, dict(spec["params"], mu=round(spec["params"]["mu"] + i * dmu, 6))), res, spec["nbz"]))
        if sign * (band.n - prev) < -1e-12:
            raise Violation("the filling decreased from %g to %g when the chemical potential rose by %g" % (prev, band.n, dmu))
        prev = band.n
    # runBandStructure leaves the filling of a ten times finer grid
    small = [9, 11, 3]
    if case["run"] and surface_exists(ref, 0, small):
        b2 = make_band(dict(spec, res=small))
        b2.res_xy_rough = 101
        b2.runBandStructure()
        check_count("filling after runBandStructure", b2.n, count_ranges(ref, [10 * x for x in small], spec["nbz"]))
        near("doping after runBandStructure", b2.p, 1 - b2.n, 1e-12, scale=1)
        ctx.label("run")
    ctx.label(spec["fam"], "nbz%d" % spec["nbz"], "a=b" if spec["a"] == spec["b"] else "a!=b")
    ctx.nontrivial(0.02 < n < 1.98 / spec["nbz"])


def many(case, ctx):
    """several bands: module function, and the totals of an angle sweep"""
    import cuprates_transport.bandstructure as bsm
    from cuprates_transport.admr import ADMR
    from cuprates_transport.conductivity import Conductivity
    lim = case["lim"]
    cls = clamped_class(lim)
    bands, ranges = [], []
    for s in case["specs"]:
        s = dict(s, res=[15, 15, 7])
        if "tz" in s["params"]:
            s["params"] = dict(s["params"], tz=max(s["params"]["tz"], 0.01))     # conducts along z
        if not surface_exists(Ref(s), 0, (15, 15, 7)) or not surface_exists(Ref(s), 0, [min(x) for x in zip(lim, (15, 15, 7))], fmin=0.002):
            ctx.discard()
        bands.append(make_band(s, cls))
        ranges.append(count_ranges(Ref(s), lim, s["nbz"]))
    p = bsm.doping(bands)
    tot = [(1 - sum(r[i][1] for r in ranges), 1 - sum(r[i][0] for r in ranges)) for i in range(3)]
    check_count("total doping of the bands", p, tot)
    for b, r in zip(bands, ranges):
        check_count("filling of one band out of several", b.n, r)
    near("total doping", p, 1 - sum(b.n for b in bands), 1e-12, scale=1)
    near("total doping, again in another order", bsm.doping(bands[::-1]), p, 1e-12, scale=1)
    # angle sweep without field: totals only
    for b in bands:
        b.discretize_fermi_surface()
        b.doping(*lim)
    conds = [Conductivity(b, Bamp=0, scattering_models=["isotropic"], scattering_params={"gamma_0": 5.0}) for b in bands]
    adm = ADMR(conds, Btheta_min=0, Btheta_max=20, Btheta_step=10, Bphi_array=[0], show_progress=False)
    for _ in range(case["runs"]):
        adm.runADMR()
        near("ADMR.total_filling", adm.total_filling, sum(b.n for b in bands), 1e-12, scale=1)
        near("ADMR.total_hole_doping", adm.total_hole_doping, p, 1e-12, scale=1)
    ctx.label("%d bands" % len(bands))
    ctx.nontrivial(len(bands) > 1)


RES = st.tuples(st.integers(4, 50), st.integers(4, 50), st.integers(2, 14)).map(list)
gen_one = st.fixed_dictionaries(dict(
    spec=any_band(), nbz=st.sampled_from([1, 1, 2, 4]), kf=st.sampled_from([[1, 1, 1], [1, 1, 1], [2, 2, 1], [1, 2, 2], [1, 1, 2]]),
    res=RES, fscale=st.sampled_from([0.5, 2, 3.7]), dmu=q(0.01, 0.4, 0.01),
    ms=st.booleans(), run=st.sampled_from([False] * 5 + [True])))
gen_many = st.fixed_dictionaries(dict(
    specs=st.lists(any_band(), min_size=1, max_size=3), runs=st.integers(1, 3),
    lim=st.tuples(st.integers(11, 40), st.integers(11, 40), st.integers(3, 12)).map(list)))

SUBS = [Sub("one", gen_one, one, 500, 40000), Sub("many", gen_many, many, 120, 5000)]
