import contextlib
import copy
import functools
import json
import os
import shutil
import tempfile
import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib import scat
from vlib.bands import q, cuprate, ortho, cylinder, near
from vlib.fits import modules, write_table, member, simulate, small_grids, freeze, files
from checks.p20 import put, value

RULE = ("Complete fits with the four drivers (worker pools of 1-3 for the parallel ones; differential evolution or least squares for the "
        "serial ones) to curves generated from parameters within the bounds with and without noise; every evaluation recorded; and the parallel drivers around an optimiser "
        "whose generated history of best points moves one or both parameters. "
        "Non-trivial: at least ten evaluations at different points.")
JIT_PROCS = 7


@contextlib.contextmanager
def recorded(cls, name, path, point):
    """every objective evaluated by objects of the class, in any process, appended to the file"""
    orig = getattr(cls, name)

    @functools.wraps(orig)
    def wrap(self, x=None, *a, **k):
        r = orig(self, x, *a, **k)
        if x is not None:
            with open(path, "a") as f:
                f.write(json.dumps([point(self, x), float(np.sum(np.asarray(r) ** 2)) if np.ndim(r) else float(r)]) + "\n")
        return r
    setattr(cls, name, wrap)
    try:
        yield
    finally:
        setattr(cls, name, orig)


def interpreted(*a):
    """simulate() with interpreted functions: compiling them for every fresh band takes seconds"""
    import numba
    keep = numba.config.DISABLE_JIT
    numba.config.DISABLE_JIT = 1
    try:
        return simulate(*a)
    finally:
        numba.config.DISABLE_JIT = keep


def lines(path):
    if not os.path.exists(path):
        return []
    return [json.loads(l) for l in open(path).read().split("\n") if l]


def setup(case, ctx, root):
    """members per temperature, free values [(key, routes)], bounds, data"""
    drv = case["driver"]
    Ts = case["Ts"] if drv in ("multiT", "seriesT") else case["Ts"][:1]
    nb = len(case["bands"]) if drv == "multiT" else 1
    phis = list(case["phis"])
    members = {T: [member(dict(b["spec"], name="band%d" % i), b["sc"], case["B"]) for i, b in enumerate(case["bands"][:nb])] for T in Ts}
    if case["decimals"]:                        # values that no rounding leaves alone
        for T in Ts:
            for m in members[T]:
                for k in ("a", "b", "c", "energy_scale"):
                    m[k] = float(m[k] * 1.0000123456789 if k != "b" or m["a"] != m["b"] else m["a"])
                for part in ("band_params", "scattering_params"):
                    m[part] = {k: v * 1.0000123456789 if k != "t" and not k.startswith("power") else v for k, v in m[part].items()}
    names = [n for n in dict.fromkeys(case["free"]) if n in ("Bamp", "energy_scale") or n in members[Ts[0]][0]["band_params"] or
             n in members[Ts[0]][0]["scattering_params"]] or ["gamma_0"]
    bounds = []
    for n in names:
        v = value(members[Ts[0]][0], n)
        w = 0.4 * abs(v) if n in ("gamma_0", "Bamp", "gamma_k") else 0.02 * abs(v) if n == "mu" else 0.3 * abs(v) if n == "tz" else 0.1 * abs(v)
        bounds.append([round(v - w, 6), round(v + w, 6)])
    x0 = [lo + (hi - lo) * f for (lo, hi), f in zip(bounds, case["truth"])]
    truth = copy.deepcopy(members)
    for T in Ts:
        for n, v in zip(names, x0):
            put(truth[T][0], n, v)
    lo, hi, step = 0.0, case["hi"], case["step"]
    if drv == "multiT":
        d0 = {(T, p): ["", 0, 1, lo, hi, step, 0, 1.0] for T in Ts for p in phis}
        grid = np.array(modules()[drv].FitAnglesADMR(Ts[0], d0).create_angles()[1], float)
    else:
        grid = np.arange(lo, hi + step * 0.999, step)
    full = np.concatenate([grid, [grid[-1] + step]])
    data, dat = {}, {}
    for T in Ts:
        rho, rzz = interpreted(truth[T], phis, full, 0)
        for i, p in enumerate(phis):
            v = rho[i] * (1 + case["noise"] * np.sin(7.0 * full + i + T))
            path = os.path.join(root, "T%s_phi%s.dat" % (T, p))
            write_table(path, full, v, 0, 1, 3, "up", 1)
            dat[T, p] = v[:grid.size]
            data[T, p] = [path, 0, 1, lo, hi, step, 0, 1.0] if drv == "multiT" else [path, 0, 1, 200, v[0]]
    return drv, Ts, phis, members, names, bounds, x0, truth, grid, data, dat


def objective(drv, members, Ts, phis, grid, dat, norm):
    """(objective, {T: (rhozz, rzz)}) of the members, from fresh objects"""
    s, sims = 0.0, {}
    for T in Ts:
        rho, rzz = interpreted(members[T], phis, grid, 0)
        sims[T] = (rho, rzz)
        for i, p in enumerate(phis):
            d = dat[T, p]
            if norm or drv == "seriesT":
                s += np.sum((d / d[0] - rzz[i]) ** 2)
            else:
                s += np.sum(((d - rho[i]) * (1 if drv == "multiT" else 1e5)) ** 2)
    return float(s), sims


def close(x, y):
    return x == y or abs(x - y) <= 1e-12 * max(abs(x), abs(y))


def outcome(case, ctx, root, S, final, rec, sims_got, maxgain):
    """checks of the final members {T: [member per band]}"""
    drv, Ts, phis, members, names, bounds, x0, truth, grid, data, dat = S
    norm = case["normalized"]
    for n, (lo, hi) in zip(names, bounds):
        vs = {float(value(final[T][0], n)) for T in Ts}
        if len(vs) != 1:
            raise Violation("%s differs between temperatures at the end: %s" % (n, sorted(vs)))
        v = vs.pop()
        if not lo - 1e-12 * abs(lo) <= v <= hi + 1e-12 * abs(hi):
            raise Violation("%s ends at %r outside of its bounds %r to %r" % (n, v, lo, hi))
    for T in Ts:
        for i, m in enumerate(members[T]):
            want = copy.deepcopy(m)
            if i == 0:
                for n in names:
                    put(want, n, float(value(final[T][0], n)))
            for k in want:
                if freeze(final[T][i][k]) != freeze(want[k]):
                    raise Violation("%s is %s after the fit instead of %s" % (k, final[T][i][k], want[k]))
    obj, sims = objective(drv, final, Ts, phis, grid, dat, norm)
    # rounding of the differences in the objective
    scale = sum(np.sum(np.abs(s[1 if norm or drv == "seriesT" else 0]) ** 2) for s in sims.values()) * (1 if norm or drv in ("multiT", "seriesT") else 1e10)
    tiny = 2e-7 * np.sqrt(obj * scale) + 1e-14 * scale
    if rec:
        best = min(r[1] for r in rec)
        # the serial methods also evaluate points of finite differences next to the best one
        if obj > best + tiny + (1e-9 if drv in ("multiT", "oneT") else 1e-3) * best:
            raise Violation("the fit ends with an objective of %.6g, and evaluated %.6g on the way" % (obj, best))
    ref, _ = objective(drv, truth, Ts, phis, grid, dat, norm)
    start, _ = objective(drv, {T: [copy.deepcopy(m) for m in members[T]] for T in Ts}, Ts, phis, grid, dat, norm)
    if maxgain == "start":
        if obj > start + tiny:
            raise Violation("the fit ends with an objective of %.6g, it started from %.6g" % (obj, start))
    elif maxgain == "truth" and case["noise"] and obj > 1.5 * ref + tiny:
        raise Violation("the fit ends with an objective of %.6g, the parameters of the data give %.6g" % (obj, ref))
    for T, (rho, rzz) in (sims_got or {}).items():
        near("resistivity of the end of the fit", rho, sims[T][0], 1e-7)
        near("normalised resistivity of the end of the fit", rzz, sims[T][1], 1e-7)
    ctx.label("free " + "+".join(names), drv)
    return obj


def inside(case, ctx, fn):
    root = tempfile.mkdtemp(prefix="p21_")
    cwd = os.getcwd()
    try:
        for d in ("data", "work", "out"):
            os.makedirs(os.path.join(root, d))
        os.chdir(os.path.join(root, "work"))
        with small_grids(rough=51):
            try:
                S = setup(case, ctx, os.path.join(root, "data"))
                # both ends of the bounds have a surface
                for f in (0, 1):
                    ms = copy.deepcopy(S[3])
                    for T in S[1]:
                        for n, b in zip(S[4], S[5]):
                            put(ms[T][0], n, b[f])
                    objective(S[0], ms, S[1][:1], S[2][:1], S[8], S[10], True)
            except (ValueError, IndexError, TypeError, NameError, np.linalg.LinAlgError):
                ctx.discard()
            fn(case, ctx, root, S)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def new_files(root, before, allowed):
    after = files(root)
    extra = sorted(p for p in after if p not in before)
    if sorted(allowed) != extra:
        raise Violation("files written: %s, expected: %s" % (extra, sorted(allowed)))
    for p in before:
        if after.get(p) != before[p]:
            raise Violation("the fit changed %s" % p)


def parallel(case, ctx):
    inside(case, ctx, _parallel)


def stand_in(case, S_bounds, truth, calls):
    """an optimiser with the interface of scipy's: its generations move some of the parameters only"""
    def search(func, bounds, args=(), *a, callback=None, workers=1, **kw):
        from scipy.optimize import OptimizeResult
        calls.append(1)
        best, top, n = None, np.inf, 0
        mine = [tuple(b) for b in S_bounds]
        goal = [truth[mine.index(tuple(b))] if tuple(b) in mine else 0.5 * (b[0] + b[1]) for b in bounds]   # the driver orders the parameters
        for which, frac in case["gens"]:
            base = [lo + 0.9 * (hi - lo) for lo, hi in bounds] if best is None else best
            xs = []
            for f in (frac, 0.5 * frac):
                x = np.array(base, float)
                for j in range(x.size):
                    if (which >> j) & 1:
                        x[j] += f * (goal[j] - x[j])
                xs.append(np.clip(x, [b[0] for b in bounds], [b[1] for b in bounds]))
            for x in xs:                # not by the workers, which need compiled functions
                v = func(x.copy(), *args)
                n += 1
                if v < top:
                    best, top = x.copy(), v
            if callback is not None and callback(best.copy(), 0.1):
                break
        return OptimizeResult(x=best, fun=top, nfev=n, nit=len(case["gens"]), success=True, message="done")
    return search


@contextlib.contextmanager
def replaced(mod, new):
    import scipy.optimize as so
    places = [(m, m.__dict__["differential_evolution"]) for m in (mod, so) if "differential_evolution" in m.__dict__]
    for m, _ in places:
        m.differential_evolution = new
    try:
        yield
    finally:
        for m, old in places:
            m.differential_evolution = old


def search(case, ctx):
    """the drivers around an optimiser whose history of best points is generated"""
    def body(case, ctx, root, S):
        calls = []
        mod = modules()[S[0]]
        with replaced(mod, stand_in(case, S[5], S[6], calls)):
            _parallel(dict(case, driven=True), ctx, root, S)
        ctx.nontrivial(len(calls) > 0 and len(S[4]) > 1)
    inside(case, ctx, body)


def _parallel(case, ctx, root, S):
    drv, Ts, phis, members, names, bounds, x0, truth, grid, data, dat = S
    mod = modules()[drv]
    norm = case["normalized"]
    ends = []
    log = os.path.join(root, "..", os.path.basename(root) + ".log")
    try:
        for W in case["workers"]:
            before = files(root)
            if os.path.exists(log):
                os.remove(log)
            np.random.seed(case["seed"])
            name = "fit%d" % len(ends)
            kw = dict(normalized_data=norm, popsize=case["popsize"], filename=name)
            kw.update(dict(num_cpu=W) if case["pct"] == 100 else dict(num_cpu=2 * W, percent_workers=50) if case["pct"] == 50
                      else dict(num_cpu=2 * W, percent_workers=case["pct"]))        # less than one worker: still a fit
            if drv == "multiT":
                pd = {T: {"band%d" % i: m for i, m in enumerate(copy.deepcopy(members[T]))} for T in Ts}
                bd = {T: {} for T in Ts}
                bd["all"] = {"band0": {n: list(b) for n, b in zip(names, bounds)}}
                keep = freeze([pd, bd, data])
                with recorded(mod.Fitness, "compute_fitness", log, lambda s, x: [float(v) for v in x]):
                    fit = mod.fit_admr_parallel(pd, bd, data, **kw)
                if freeze([pd, bd, data]) != keep:
                    raise Violation("the fit changed its inputs")
                new_files(root, before, [])
                before = files(root)
                fit.save_member_to_json(filename=name, folder=os.path.join(root, "out"))
                fit.fig_compare(fig_show=False, fig_save=True, folder=os.path.join(root, "out"), figname=name)
                new_files(root, before, ["out/%s.json" % name, "out/%s.pdf" % name])
                back = json.load(open(os.path.join(root, "out", name + ".json")))
                final = {T: [fit.params_dict[T]["band%d" % i] for i in range(len(members[T]))] for T in Ts}
                if freeze(back) != freeze({str(T): {"band%d" % i: m for i, m in enumerate(final[T])} for T in Ts}):
                    raise Violation("the file of the fit differs from its parameters")
                sims = {T: (fit.rhozz_sim_dict[T], fit.rzz_sim_dict[T]) for T in Ts}
            else:
                m0 = dict(copy.deepcopy(members[Ts[0]][0]), data_T=Ts[0], data_p=0.2, Btheta_min=0.0, Btheta_max=float(grid[-1]),
                          Btheta_step=case["step"], Bphi_array=list(phis))
                bd = {n: list(b) for n, b in zip(names, bounds)}
                keep = freeze([m0, bd, data])
                with recorded(mod.FittingADMRParallel, "compute_diff2", log, lambda s, x: [float(v) for v in x]):
                    end = mod.fit_admr_parallel(m0, bd, data, **kw)
                if freeze([m0, bd, data]) != keep:
                    raise Violation("the fit changed its inputs")
                new_files(root, before, ["work/%s.json" % name, "work/%s.pdf" % name])
                back = json.load(open(os.path.join(root, "work", name + ".json")))
                if freeze(back) != freeze(end):
                    raise Violation("the file of the fit differs from its parameters")
                fit = mod.FittingADMRParallel(m0, bd, data, folder=os.path.join(root, "work"))
                fit.json_name = name + ".json"
                fit.load_member_from_json()
                if freeze(fit.member) != freeze(end):
                    raise Violation("the file of the fit reads back differently")
                final = {Ts[0]: [end]}
                sims = None
            rec = lines(log)
            obj = outcome(case, ctx, root, S, final, rec, sims, "any" if case.get("driven") else "truth")
            ends.append([float(value(final[Ts[0]][0], n)) for n in names] + [obj])
            if ends[0] != ends[-1]:
                raise Violation("with %d workers the fit ends at %s, with %d at %s" % (case["workers"][0], ends[0], W, ends[-1]))
            ctx.label("workers %d" % W)
            ctx.nontrivial(len({repr(r[0]) for r in rec}) >= (3 if case.get("driven") else 10))
    finally:
        if os.path.exists(log):
            os.remove(log)


def serial(case, ctx):
    if case["method"] == "differential_evolution":
        case = dict(case, free=case["free"][:1], Ts=case["Ts"][:1], phis=case["phis"][:1])
    inside(case, ctx, _serial)


def _serial(case, ctx, root, S):
    drv, Ts, phis, members, names, bounds, x0, truth, grid, data, dat = S
    mod = modules()[drv]
    norm = case["normalized"]
    log = os.path.join(root, "..", os.path.basename(root) + ".log")
    m0 = dict(copy.deepcopy(members[Ts[0]][0]), data_T=Ts[0] if drv == "series" else list(Ts), data_p=0.2, Btheta_min=0.0,
              Btheta_max=float(grid[-1]), Btheta_step=case["step"], Bphi_array=list(phis))
    bd = {n: list(b) for n, b in zip(names, bounds)}
    keep = freeze([m0, bd, data])
    before = files(root)
    np.random.seed(case["seed"])
    try:
        with recorded(mod.FittingADMR, "compute_diff", log, lambda s, p: [float(p[n].value) for n in names]):
            fit = mod.FittingADMR(m0, bd, data, folder=os.path.join(root, "out"), method=case["method"], normalized_data=norm)
            fit.runFit("fit")
        rec = lines(log)
        if freeze([m0, bd, data]) != keep:
            raise Violation("the fit changed its inputs")
        new_files(root, before, ["out/fit.json", "out/fit.pdf"])
        end = fit.member if drv == "series" else fit.member_dict
        back = json.load(open(os.path.join(root, "out", "fit.json")))
        if freeze(back) != freeze(end if drv == "series" else {str(T): end[T] for T in Ts}):
            raise Violation("the file of the fit differs from its parameters")
        final = {Ts[0]: [end]} if drv == "series" else {T: [end[T]] for T in Ts}
        A = {Ts[0]: fit.admrObject} if drv == "series" else fit.admrObject_dict
        outcome(case, ctx, root, S, final, rec, {T: (A[T].rhozz_array, A[T].rzz_array) for T in Ts},
                "start" if case["method"] == "least_square" else "truth")
        # read back into another fit: the same members, and the same objective
        fit2 = mod.FittingADMR(m0, bd, data, folder=os.path.join(root, "out"), normalized_data=norm)
        fit2.json_name = "fit.json"
        fit2.load_member_from_json()
        if freeze(fit2.member if drv == "series" else fit2.member_dict) != freeze(end):
            raise Violation("the file of the fit reads back differently")
        ctx.label(case["method"])
        ctx.nontrivial(len({repr(r[0]) for r in rec}) >= 5)
    finally:
        if os.path.exists(log):
            os.remove(log)


RES = st.sampled_from([[9, 9, 4]])
SPEC = st.one_of(cuprate(res=RES, tz_min=0.04, mu_hi=-0.8), ortho(res=RES), cylinder(res=RES)).map(
    lambda s: dict(s, params=dict(s["params"], tz=max(s["params"]["tz"], 0.04))))
BAND = st.fixed_dictionaries(dict(spec=SPEC, sc=scat.models(g0=(8, 30))))


FREE = st.lists(st.sampled_from(["gamma_0", "tz", "Bamp", "mu", "gamma_k", "energy_scale"]), min_size=1, max_size=2, unique=True)
# mostly two parameters for the populations: a step often changes one of them only
FREE2 = st.one_of(FREE, *[st.lists(st.sampled_from(["gamma_0", "tz", "Bamp", "mu", "energy_scale"]), min_size=2, max_size=2, unique=True)] * 3)


def cases(drivers, **kw):
    return st.fixed_dictionaries(dict(dict(
        driver=st.sampled_from(drivers), bands=st.one_of(st.lists(BAND, min_size=1, max_size=1), st.lists(BAND, min_size=1, max_size=2)), B=st.sampled_from([45, 30]),
        Ts=st.sampled_from([[25], [25], [25, 12.5]]), phis=st.sampled_from([[0.0], [0.0], [0.0, 30.0], [0.0, 30.0], [45.0], [45.0], [0.0, 10.0, 15.0, 20.0, 30.0, 40.0, 45.0, 60.0]]),
        free=FREE,
        truth=st.lists(q(0.1, 0.9, 0.1), min_size=2, max_size=2), hi=st.sampled_from([60.0, 80.0]), step=st.sampled_from([20.0]),
        noise=st.sampled_from([0.01, 0.03]), normalized=st.booleans(), decimals=st.booleans(), seed=st.integers(0, 999)), **kw))


GENS = st.lists(st.tuples(st.sampled_from([1, 2, 3, 1, 2]), st.sampled_from([0.2, 0.5, 0.8, 1.0, -0.2])).map(list), min_size=2, max_size=5)
SUBS = [Sub("search", cases(["multiT", "oneT"], free=st.lists(st.sampled_from(["gamma_0", "tz", "Bamp", "mu", "energy_scale"]), min_size=2, max_size=2, unique=True),
                            workers=st.sampled_from([[1], [2], [1, 2]]), popsize=st.just(6), pct=st.just(100), gens=GENS), search, 40, 1500, max_shrink=60.0),
        Sub("parallel", cases(["multiT", "oneT"], free=FREE2, workers=st.sampled_from([[1, 2], [2], [2], [3, 1]]), popsize=st.sampled_from([6, 8]),
                              pct=st.sampled_from([100, 50, 10])), parallel, 16, 400, jit=True, max_shrink=60.0),
        Sub("serial", cases(["series", "seriesT"], method=st.sampled_from(["least_square", "least_square", "differential_evolution"])),
            serial, 20, 500, max_shrink=60.0)]
