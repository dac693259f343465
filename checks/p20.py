import copy
import os
import re
import shutil
import tempfile
import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib import scat
from vlib.bands import q, cuprate, ortho, cylinder, afband
from vlib.fits import DRIVERS, modules, write_table, member, simulate, small_grids

RULE = ("Fits of each of the four drivers with 1-2 bands, 1-2 temperatures, free parameters of every kind (bands, scattering, lattice, "
        "energy scale, field), shared or per temperature; a history of points with repetitions; every objective against data minus a fresh "
        "simulation of the substituted members. Non-trivial: two different points at least, objectives that differ between them.")

MEMO = {}


def sim(members, phis, thetas, norm):
    key = repr([sorted(m.items(), key=lambda t: t[0]) for m in members]) + repr((list(map(float, phis)), list(map(float, thetas)), float(norm)))
    if key not in MEMO:
        if len(MEMO) > 300:
            MEMO.clear()
        try:
            MEMO[key] = simulate(members, phis, thetas, norm)
        except (ValueError, IndexError, np.linalg.LinAlgError, TypeError, NameError) as e:
            MEMO[key] = e
    if isinstance(MEMO[key], Exception):
        raise _NoSurface()
    return MEMO[key]


class _NoSurface(Exception):
    pass


def value(m, name):
    for d in (m, m["band_params"], m["scattering_params"]):
        if name in d:
            return d[name]
    raise KeyError(name)


def put(m, name, x):
    for d in (m, m["band_params"], m["scattering_params"]):
        if name in d:
            d[name] = float(x)
            return
    raise KeyError(name)


def fixed_mu(m, p):
    """chemical potential of the doping asked for, from a fresh band"""
    from cuprates_transport.bandstructure import BandStructure
    b = BandStructure(**dict(copy.deepcopy(m), parallel=False))
    b.set_mu_to_doping(p)
    return float(b["mu"])


class Model:
    """members[T] = list of members (one per band); routes of each free value: [(T, band index, name), ...]"""

    def __init__(self, members, routes):
        self.members, self.routes = members, routes

    def at(self, x):
        ms = copy.deepcopy(self.members)
        for v, rs in zip(x, self.routes):
            for T, i, n in rs:
                put(ms[T][i], n, v)
        return ms


def kinds(m):
    if m["T"]:
        return ["T", "gamma_0", "mu"]
    return [n for n in m["band_params"]] + [n for n in m["scattering_params"]] + ["energy_scale", "a", "b", "c", "Bamp"]


ZERO = ("tp", "tpp", "gamma_k", "gamma_k_sin", "gamma_dos_max")     # may vanish: their bounds include zero


def scaled(v, name, f):
    """value at a fraction f (-1..1) of its bounds, and the bounds"""
    w = 0.3 if name.startswith("gamma") or name in ("Bamp", "T") or name.startswith("power") else 0.02
    w = w * abs(v) if v else 0.02
    lo, hi = round(v - w, 6), round(v + w, 6)
    return min(lo, 0.0) if name in ZERO else lo, max(hi, 0.0) if name in ZERO else hi, v + f * w * 0.99


def choose(case, names, n):
    """n of the names, driven by the case"""
    pool, out = list(names), []
    for i in case["picks"][:n]:
        if pool:
            out.append(pool.pop(i % len(pool)))
    return out


def held(fit, drv, T, want):
    """the members of the fit are those of the point evaluated"""
    if drv == "multiT":
        got = [fit.params_dict[T]["band%d" % i] for i in range(len(want))]
    else:
        got = [fit.member_dict[T] if drv == "seriesT" else fit.member]
    for g, w in zip(got, want):
        for part in ("band_params", "scattering_params"):
            if set(g[part]) != set(w[part]):
                raise Violation("%s of the fit: %s instead of %s" % (part, sorted(g[part]), sorted(w[part])))
            for k, v in w[part].items():
                if not abs(float(g[part][k]) - v) <= 1e-9 * max(1, abs(v)):
                    raise Violation("%s of the fit is %r at a point where it is %r (T = %s)" % (k, g[part][k], v, T))
        for k in ("a", "b", "c", "energy_scale", "Bamp", "T"):
            if not abs(float(g[k]) - w[k]) <= 1e-9 * max(1, abs(w[k])):
                raise Violation("%s of the fit is %r at a point where it is %r (T = %s)" % (k, g[k], w[k], T))


def objective(case, ctx):
    root = tempfile.mkdtemp(prefix="p20_")
    try:
        with small_grids():
            _objective(case, ctx, root)
    except _NoSurface:
        ctx.discard()
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _objective(case, ctx, root):
    drv, mods = case["driver"], modules()
    norm = case["normalized"]
    Ts = case["Ts"] if drv in ("multiT", "seriesT") else case["Ts"][:1]
    nb = len(case["bands"]) if drv == "multiT" else 1
    phis = list(dict.fromkeys(case["phis"]))
    base = [member(dict(b["spec"], name="band%d" % i), b["sc"], case["B"], T=case["warm"]) for i, b in enumerate(case["bands"][:nb])]
    members = {}
    for j, T in enumerate(Ts):
        members[T] = copy.deepcopy(base)
        if j and case["differ"]:
            for m in members[T]:
                if drv == "multiT":
                    m["scattering_params"]["gamma_0"] *= 1.5
                else:
                    m["Bamp"] = m["Bamp"] + 4
    # -- what is free ----------------------------------------------------------------------------
    routes, bounds = [], []
    if drv == "multiT":
        bdict, seen = {}, set()
        for T in Ts:
            bdict.setdefault(T, {})          # every temperature fitted is listed, even without a parameter of its own
        order = []
        for k, p in enumerate(case["picks"]):
            i = p % nb
            name = choose(dict(picks=[p // 2]), kinds(base[i]), 1)[0]
            T = "all" if case["shared"][k % len(case["shared"])] else Ts[(p // 5) % len(Ts)]
            if any((TT, i, name) in seen for TT in (Ts if T == "all" else [T])):
                continue
            seen |= {(TT, i, name) for TT in (Ts if T == "all" else [T])}
            order.append((T, i, name))
            bdict.setdefault(T, {}).setdefault("band%d" % i, {})[name] = None
        # a value common to all temperatures, then another one at one of the temperatures only
        over = [o for o in order if o[0] == "all"][:1] if case["overlap"] is not None and len(Ts) > 1 else []
        for _, i, name in over:
            bdict[Ts[case["overlap"]]].setdefault("band%d" % i, {})[name] = None
            ctx.label("common value overridden at one temperature")
        if (case["all_first"] or over) and "all" in bdict:
            bdict = dict([("all", bdict["all"])] + [(T, v) for T, v in bdict.items() if T != "all"])
        for T in bdict:
            for bn in bdict[T]:
                i = int(bn[4:])
                for name in bdict[T][bn]:
                    lo, hi, _ = scaled(value(members[T if T != "all" else Ts[0]][i], name), name, 0)
                    bdict[T][bn][name] = [lo, hi]
                    bounds.append((lo, hi, name))
                    routes.append([(TT, i, name) for TT in (Ts if T == "all" else [T])])
    else:
        names = choose(case, kinds(base[0]), 3)
        if case["fixdoping"] is not None and "mu" in names:
            names.remove("mu")
        per_T = drv == "seriesT" and case["differ"]          # Bamp differs between temperatures
        bdict = {}
        for n in names:
            if n == "Bamp" and per_T:
                bdict[n] = {}
                for T in Ts:
                    lo, hi, _ = scaled(members[T][0][n], n, 0)
                    bdict[n][T] = [lo, hi]
                    bounds.append((lo, hi, n))
                    routes.append([(T, 0, n)])
            else:
                lo, hi, _ = scaled(value(base[0], n), n, 0)
                bdict[n] = [lo, hi]
                bounds.append((lo, hi, n))
                routes.append([(T, 0, n) for T in Ts])
    if not routes:
        ctx.discard()
    model = Model(members, routes)
    points = [[0.0 if n in ZERO and f <= 0.3 else lo + (hi - lo) * (0.02 + 0.96 * f) for (lo, hi, n), f in zip(bounds, (p * 4)[:len(bounds)])] for p in case["points"]]
    if case["close"]:       # two points of a fit that has almost converged
        points[-1] = [v + case["close"] * (hi - lo) * (1 if v < (lo + hi) / 2 else -1) for v, (lo, hi, n) in zip(points[0], bounds)]
    if drv != "multiT" and case["fixdoping"] is not None:
        plain, doping = model.at, case["fixdoping"]

        def at(x):
            ms = plain(x)
            mu = fixed_mu(ms[Ts[0]][0], doping)
            for T in Ts:
                ms[T][0]["band_params"]["mu"] = mu
            return ms
        model.at = at
    # -- the data --------------------------------------------------------------------------------
    lo, hi, step, nrm = 0.0, case["hi"], case["step"], case["norm"] if drv == "multiT" else 0
    rng = np.random.RandomState(case["seed"])
    if drv == "multiT":
        # temperatures measured with other steps, azimuths and normalisation angles
        vary = case["vary"]
        rows = {T: [lo, hi, step * (1.4 if vary and n else 1), nrm + (7 if vary and n == 1 else 0)] for n, T in enumerate(Ts)}
        azim = {T: phis[1:] if vary and n and len(phis) > 1 else phis for n, T in enumerate(Ts)}
        d0 = {(T, p): ["", 0, 1] + rows[T] + [1.0] for T in Ts for p in azim[T]}
        grids = {T: np.array(mods[drv].FitAnglesADMR(T, d0).create_angles()[1], float) for T in Ts}
    else:
        grid = np.arange(lo, hi + step, step)
        if case["cut"]:
            grid = grid[grid <= case["cut"]]
        grid = grid[grid <= hi + step * 0.999]
        grids, azim, rows = {T: grid for T in Ts}, {T: phis for T in Ts}, {T: [lo, hi, step, nrm] for T in Ts}
    if min(g.size for g in grids.values()) < 2:
        ctx.discard()
    truth = model.at(points[0])
    data = {}
    for T in Ts:
        grid = grids[T]
        full = np.concatenate([grid, [grid[-1] + step, grid[-1] + 2 * step]])
        rho, _ = sim(truth[T], azim[T], full, nrm)
        for i, p in enumerate(azim[T]):
            v = rho[i] * (1 + case["noise"] * rng.uniform(-1, 1, full.size))
            path = os.path.join(root, "T%s_phi%s.dat" % (T, p))
            if case["spike"]:
                v[min(case["spike"], v.size - 1)] *= 3.5            # an outlier counts like any other point
            if drv == "multiT":
                write_table(path, full, v, 0, 1, 3, case["order"], 1, scale=1 / case["pre"])
                data[T, p] = [path, 0, 1] + rows[T] + [case["pre"]]
            else:
                r0 = v[0]
                write_table(path, full, v / r0 * 3.7, 1, 2, 4, case["order"], 1)
                data[T, p] = [path, 1, 2, case["cut"] or 200, r0]
    if case["others"]:      # curves that belong to other fits
        other = os.path.join(root, "other.dat")
        write_table(other, full, 1 + full ** 2, 0, 1, 3, "up", 1)
        row = [other, 0, 1, lo, hi / 2, step / 2, nrm, 3.0] if drv == "multiT" else [other, 0, 1, lo + step, 9e-5]
        more = {(99, phis[0]): row} if drv == "multiT" else {(99, phis[0]): row, (Ts[0], 77.7): row}
        data = {**more, **data} if case["others"] == "before" else {**data, **more}
    # -- the fit ---------------------------------------------------------------------------------
    extra = dict(Btheta_min=lo, Btheta_max=hi, Btheta_step=step, Bphi_array=list(phis), data_p=0.2)
    if case["fixdoping"] is not None:
        extra["fixdoping"] = case["fixdoping"]
    weight = 0.0
    if drv == "multiT":
        pd = {T: {"band%d" % i: m for i, m in enumerate(copy.deepcopy(members[T]))} for T in Ts}
        if case["alias"] and not case["differ"]:        # one description written down once, for every temperature
            pd = {T: dict(pd[Ts[0]]) for T in Ts}
            ctx.label("members shared between temperatures")
        fit = mods[drv].Fitness(data, pd, bdict, normalized_data=norm)
        thetas = {T: fit.thetas_dict[T] for T in Ts}

        def call(x):
            return fit.compute_fitness(np.array(x))
    elif drv == "oneT":
        fit = mods[drv].FittingADMRParallel(dict(copy.deepcopy(members[Ts[0]][0]), data_T=Ts[0], **extra), bdict, data, folder=root,
                                            normalized_data=norm)
        order = sorted(range(len(bounds)), key=lambda i: bounds[i][2])

        def call(x):
            return fit.compute_diff2(np.array([x[i] for i in order]))
    else:
        m0 = dict(copy.deepcopy(members[Ts[0]][0]), data_T=Ts[0] if drv == "series" else list(Ts), **extra)
        if drv == "seriesT" and case["differ"]:
            m0["Bamp"] = {T: members[T][0]["Bamp"] for T in Ts}
        fit = mods[drv].FittingADMR(m0, bdict, data, folder=root, normalized_data=norm)
        if drv == "seriesT" and not norm:
            weight = case["weight"]
            fit.weight_rhozz = weight
        lab = list(fit.pars)

        def call(x):
            p = copy.deepcopy(fit.pars)
            for n, v in zip(lab, x):
                p[n].value = v
            return fit.compute_diff(p)
    # -- the history -----------------------------------------------------------------------------
    outs = []
    for k in case["history"]:
        x = points[k % len(points)]
        try:
            ms = model.at(x)
            want, scale = [], []
            for T in Ts:
                grid, nrm = grids[T], rows[T][3]
                rho, rzz = sim(ms[T], azim[T], grid, nrm)
                dat = np.array([np.loadtxt(data[T, p][0])[:, :] for p in azim[T]])
                for i, p in enumerate(azim[T]):
                    d = dat[i][np.argsort(dat[i][:, 0 if drv == "multiT" else 1])]
                    col = d[:grid.size, 1] if drv == "multiT" else d[:grid.size, 2]
                    if drv == "multiT":
                        dr = col * case["pre"]
                        dz = col / np.interp(nrm, grid, col)
                    else:
                        dz = col / col[0]
                        dr = dz * data[T, p][4]
                    if norm or drv == "seriesT":
                        want += list(dz - rzz[i])
                        scale += [1.0] * grid.size
                    else:
                        u = 1 if drv == "multiT" else 1e5
                        want += list((dr - rho[i]) * u)
                        scale += list(np.abs(rho[i]) * u)
                if drv == "seriesT" and not norm:
                    for i, p in enumerate(phis):
                        want.append(weight * (data[T, p][4] - rho[i][0]) * 1e5)
                        scale.append(weight * rho[i][0] * 1e5)
            want, scale = np.array(want), np.array(scale)
        except np.linalg.LinAlgError:
            raise _NoSurface()
        got = call(x)
        for T in Ts:
            held(fit, drv, T, ms[T])
        if drv in ("multiT", "oneT"):
            s, tol = float(np.sum(want ** 2)), 2e-9 * float(np.sum(np.abs(want) * scale)) + 1e-17 * float(np.sum(scale ** 2))
            if not abs(float(got) - s) <= tol:
                raise Violation("objective %.10g instead of %.10g at %s (call %d)" % (float(got), s, x, len(outs)))
        else:
            got = np.asarray(got, float).ravel()
            if got.size != want.size:
                raise Violation("a vector of %d differences instead of %d (call %d)" % (got.size, want.size, len(outs)))
            g, w = np.sort(np.abs(got)), np.sort(np.abs(want))
            if not np.all(np.abs(g - w) <= 2e-9 * np.max(scale) + 1e-9 * w):
                raise Violation("differences %s instead of %s at %s (call %d)" % (g[:5], w[:5], x, len(outs)))
        outs.append(float(np.sum(want ** 2)))
    ctx.label(drv, "normalised" if norm else "absolute", "fixed doping" if case["fixdoping"] is not None and drv != "multiT" else "free doping")
    ctx.label(*["free " + n for _, _, n in bounds])
    if case["noise"] == 0 and not case["spike"] and any(k % len(points) == 0 for k in case["history"]):
        ctx.label("exact data at the truth")
    ctx.nontrivial(len(set(k % len(points) for k in case["history"])) > 1 and len({round(o, 14) if norm else o for o in outs}) > 1)


RES = st.sampled_from([[9, 9, 4], [11, 9, 4], [9, 9, 6]])
SPEC = st.one_of(cuprate(res=RES, tz_min=0.02, mu_hi=-0.75), ortho(res=RES), cylinder(res=RES), afband(res=RES)).map(
    lambda s: dict(s, params=dict(s["params"], tz=max(s["params"]["tz"], 0.02))))


def renamed(s, old, new):
    """the same band with another name of a parameter, one that attributes of the band have too"""
    if old not in s["params"] or new in s["params"]:
        return s
    return dict(s, model=re.sub(r"\b%s\b" % old, new, s["model"]), params={new if k == old else k: v for k, v in s["params"].items()})


SPEC = st.builds(renamed, SPEC, st.sampled_from(["none", "none", "none", "tz", "t"]), st.sampled_from(["n", "p", "mass", "kf", "dkf"]))
BAND = st.fixed_dictionaries(dict(spec=SPEC, sc=scat.models(g0=(8, 40))))

def cases(**kw):
    return st.fixed_dictionaries(dict(dict(
        driver=st.sampled_from(list(DRIVERS)), bands=st.lists(BAND, min_size=1, max_size=3), B=st.sampled_from([45, 20, 12.5]), warm=st.just(0),
        Ts=st.sampled_from([[25], [25, 12], [4.2, 20.5], [25, 12, 6]]), phis=st.lists(st.sampled_from([0.0, 15.0, 30.0, 45.0, 28.5]), min_size=1, max_size=3, unique=True),
        differ=st.booleans(), vary=st.booleans(), alias=st.booleans(), picks=st.lists(st.integers(0, 99), min_size=2, max_size=4), shared=st.lists(st.booleans(), min_size=1, max_size=4),
        all_first=st.booleans(), overlap=st.sampled_from([None, 0, 1]), points=st.lists(st.lists(q(0, 1, 0.05), min_size=4, max_size=4), min_size=2, max_size=3, unique_by=str),
        history=st.lists(st.integers(0, 2), min_size=2, max_size=5), normalized=st.booleans(), fixdoping=st.sampled_from([None, None, None, 0.2]),
        hi=st.sampled_from([60.0, 45.0, 90.0]), step=st.sampled_from([20.0, 15.0, 30.0, 14.4, 22.0]), cut=st.sampled_from([0, 0, 0, 44.0]),
        norm=st.sampled_from([0, 0, 10.0]), noise=st.sampled_from([0.0, 0.0, 0.02]), seed=st.integers(0, 99), pre=st.sampled_from([1.0, 6.7e-5]),
        order=st.sampled_from(["up", "down", "random"]), weight=st.sampled_from([1.0, 0.3]), close=st.sampled_from([0, 0, 1e-4, 1e-3, 3e-3]), spike=st.sampled_from([0, 0, 0, 1, 2]), others=st.sampled_from(["", "", "before", "after"])), **kw))


WARM = cases(warm=st.sampled_from([2.0, 6.0]), bands=st.lists(BAND, min_size=1, max_size=1), phis=st.just([15.0]), hi=st.just(60.0),
             step=st.sampled_from([30.0]), cut=st.just(0), history=st.sampled_from([[0, 1], [1, 0], [1, 2]]), fixdoping=st.none(),
             normalized=st.just(False), Ts=st.sampled_from([[25], [25, 12]]),
             picks=st.lists(st.integers(0, 99), min_size=2, max_size=4).map(lambda p: [0] + p))
SUBS = [Sub("objective", cases(), objective, 280, 8000), Sub("warm", WARM, objective, 16, 300)]
