import re

import numpy as np
from vlib import scat
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, any_band, pockets, surface_exists, cuprate, ortho, cylinder, ellipsoid, q, near, pi, check_fs, tensor, clamped_class, meshable)
from vlib.trans import make_cond, omega_tau, field
from checks.p14 import KB

RULE = ("Pairs of equivalent descriptions of generated bands: energies split between scale and parameters (factors 1e-6 to 1e6), parameters "
        "renamed, other algebraic forms, parameters written as numbers, axes exchanged (cubes and slices, small pockets included), momentum shifted or inverted, zones doubled, "
        "electrons and holes exchanged, units of length, energy and time scaled; zero field, field, temperature. Compared: filling, "
        "surface and conductivities, transformed. Non-trivial: the conductivity is compared and a field or a temperature is on.")

LIM = (61, 61, 31)
NEW = ["E", "I", "N", "S", "beta", "gamma", "t", "mu", "q", "alpha_1", "Z9", "zeta", "tt", "x", "K", "m_u", "g", "h", "kappa", "kxx", "Tz", "ab"]


def subst(model, table):
    """names replaced, all at once"""
    return re.sub(r"[A-Za-z_][A-Za-z_0-9]*", lambda m: table.get(m.group(0), m.group(0)), model)


def rewritten(model, form):
    if form == "double angle":          # cos(2*x) = 2 cos(x)^2 - 1
        return re.sub(r"cos\(2\*([abc])\*(k[xyz])\)", r"(2*cos(\1*\2)**2 - 1)", model)
    if form == "half angle":            # (cos x - cos y)^2 expanded, cos = 1 - 2 sin(x/2)^2
        return re.sub(r"cos\(([abc])\*(k[xyz])\)", r"(1 - 2*sin(\1*\2/2)**2)", model)
    if form == "sine":
        return re.sub(r"cos\(([0-9.]*\*?[abc]\*k[xyz](?:/2)?)\)", r"sin(\1 + pi/2)", model)
    if form == "exponential":
        return re.sub(r"cos\(([0-9.]*\*?[abc]\*k[xyz](?:/2)?)\)", r"cosh(0*\1)*cos(-(\1))", model)
    if form == "sum":
        return "(%s)/2 + 0.5*(%s)" % (model, model)
    if form == "expanded":
        import sympy as sp
        return str(sp.expand(sp.sympify(model)))
    if form == "tangent":
        return "(%s)*(sin(a*kx)**2 + cos(a*kx)**2)" % model
    raise KeyError(form)


def second(spec, how, arg):
    """(spec of the other description, matrix R that takes momenta of the first to the second, expected factors)"""
    s = dict(spec, params=dict(spec["params"]), k_max=list(spec["k_max"]), res=list(spec["res"]))
    if how == "scale":
        s["scale"] = spec["scale"] * arg
        s["params"] = {k: v / arg for k, v in s["params"].items()}
    elif how == "names":
        names = dict(zip(sorted(s["params"]), [NEW[(arg + 5 * i) % len(NEW)] for i in range(len(s["params"]))]))
        s["params"] = {names[k]: v for k, v in s["params"].items()}
        s["model"] = subst(s["model"], names)
    elif how == "numbers":
        names = sorted(s["params"])
        gone = [n for i, n in enumerate(names) if (arg >> i) & 1] or names[:1]
        s["model"] = subst(s["model"], {n: "(%r)" % (s["params"].pop(n) * spec["scale"]) for n in gone})
        if not s["params"]:
            s["params"] = {"unused": 1.0}
    elif how == "form":
        s["model"] = rewritten(s["model"], arg)
    return s


def permuted(spec, perm, signs):
    """E'(k') = E(k) with k'_i = signs_i k_perm[i] in units of the reciprocal lattice"""
    table, ax = {}, ("kx", "ky", "kz")
    let = "abc"
    for i in range(3):
        table[ax[perm[i]]] = ("(%s)" if signs[i] > 0 else "(-%s)") % ax[i]
        table[let[perm[i]]] = let[i]
    s = dict(spec, model=subst(spec["model"], table), k_max=[spec["k_max"][p] for p in perm], res=[spec["res"][p] for p in perm])
    for i in range(3):
        s[let[i]] = spec[let[perm[i]]]
    R = np.zeros((3, 3))
    for i in range(3):
        R[i, perm[i]] = signs[i]
    return s, R


def transport(spec, sc, Bvec, T, ctx, warm=None, first=None):
    """(band, conductivity object) of a description; None when it cannot be computed at these settings"""
    band = make_band(spec, clamped_class(LIM), warm=warm)
    band.res_xy_rough = 201
    band.runBandStructure()
    check_fs(band)
    B = np.linalg.norm(Bvec)
    th = np.rad2deg(np.arccos(np.clip(Bvec[2] / B, -1, 1))) if B else 0.0
    ph = np.rad2deg(np.arctan2(Bvec[1], Bvec[0])) if B else 0.0
    if first is None and omega_tau(band, sc, B) > 6:
        ctx.discard()
    c = make_cond(band, sc, B, th, ph, T, warm=False if warm == 0 else None, N_time=80, N_epsilon=4, dfdE_cut_percent=0.05, rtol=1e-7, atol=1e-7)
    c.runTransport()
    tensor(c.sigma, "sigma")
    return band, c


def compare(what, c1, c2, T, f, rtol, fa=1.0, fb=1.0, floor=0.02):
    """f maps the tensors of the first onto those of the second; fa, fb: extra factors of alpha and beta"""
    for name, x in (("sigma", 1.0), ("alpha", fa), ("beta", fb)) if T else (("sigma", 1.0),):
        m, n = np.asarray(getattr(c1, name), float), np.asarray(getattr(c2, name), float)
        w = f(m) * x
        d = np.sqrt(np.abs(np.diagonal(f(np.asarray(c1.sigma, float)))))
        d = np.sqrt(np.max(np.abs(np.diag(w)))) * d / d.max()
        near("%s, %s" % (name, what), n, w, rtol, scale=np.maximum(np.outer(d, d), floor * np.max(np.abs(w))))


# ---------------------------------------------------------------------------------------
def ok(case, spec, ctx):
    T = case["T"]
    w = 2 * KB * T * np.arccosh(1 / np.sqrt(0.05)) if T else 0.0
    ref = Ref(spec)
    for x in ((-w, 0.0, w) if w else (0.0,)):
        if not meshable(ref, spec, x):
            ctx.discard()
    return ref


def same(case, ctx):
    """descriptions whose discretisations are point for point the same"""
    spec, sc = dict(case["spec"], ms=case["ms"]), case["sc"]
    ok(case, spec, ctx)
    other = second(spec, *case["how"])
    Bv = field(case["B"], case["th"], case["ph"])
    b1, c1 = transport(spec, sc, Bv, case["T"], ctx, warm=0)
    b2, c2 = transport(other, sc, Bv, case["T"], ctx, first=c1)
    what = "description by %s %s" % (case["how"][0], case["how"][1] if case["how"][0] == "form" else "")
    if b1.kf.shape != b2.kf.shape and not spec["ms"] and case["how"][0] in ("scale", "names"):
        raise Violation("%s: %s points instead of %s" % (what, b2.kf.shape, b1.kf.shape))
    n1, n2 = b1.filling(), b2.filling()
    lo, hi = degenerate(Ref(spec))
    near("filling, " + what, n2, n1, 0, scale=1.0, atol=1e-9 + hi - lo)
    near("stored filling, " + what, b2.n, n2, 0, scale=1.0, atol=1e-9 + hi - lo)
    compare(what, c1, c2, case["T"], lambda x: x, 1e-5 if case["how"][0] == "scale" else 5e-3)     # powers of two: the same rounding
    ctx.label(case["how"][0], str(case["how"][1]) if case["how"][0] == "form" else "", spec["fam"], "slices" if spec["ms"] else "cubes")
    ctx.nontrivial(bool(case["B"] or case["T"]))


def degenerate(ref, n=LIM):
    """share of grid states within rounding of the Fermi level"""
    g = [np.linspace(-m, m, r) for m, r in zip(ref.kmax, n)]
    e = ref.energy(*np.meshgrid(*g, indexing="ij"))
    return 0.0, 2 * np.mean(np.abs(e) < 1e-9 * np.max(np.abs(e)))


def units(case, ctx):
    """lengths, energies, times scaled"""
    spec, sc, B, T = case["spec"], case["sc"], case["B"], case["T"]
    how, f = case["how"]
    if how != "lattice":
        spec = dict(spec, ms=case["ms"])
    ok(case, spec, ctx)
    Bv = field(B, case["th"], case["ph"])
    other, sc2, Bv2, T2 = dict(spec), sc, Bv, T
    g = lambda x: x     # noqa: E731
    fa = fb = 1.0
    rates = {k: v * f for k, v in sc["par"].items() if k.startswith("gamma")}
    if how == "energy":             # energies, temperature and rates: same conductivity
        other = dict(spec, scale=spec["scale"] * f)
        sc2 = dict(sc, par=dict(sc["par"], **rates))
        T2 = T * f
        fb = f
    elif how == "time":             # rates and field: conductivity / f
        sc2 = dict(sc, par=dict(sc["par"], **rates))
        Bv2 = Bv * f
        g = lambda x: x / f     # noqa: E731
    else:                           # lengths: kappa = k * lattice is unchanged
        D = np.array(case["D"]) if how == "lattice" else np.array([f, f, f])
        if how == "lattice":
            T = T2 = 0
            sc = dict(models=["isotropic"], par={"gamma_0": sc["par"]["gamma_0"]})
            sc2 = sc
            spec = dict(spec, res=[21, 21, 11] if spec["fam"] != "ellipsoid" else [21, 21, 21])
        other = dict(spec, a=spec["a"] * D[0], b=spec["b"] * D[1], c=spec["c"] * D[2])
        Bv2 = Bv * D / np.prod(D)
        g = lambda x: np.diag(D) @ x @ np.diag(D) / np.prod(D)      # noqa: E731
    b1, c1 = transport(spec, sc, Bv, T, ctx, warm=0)
    b2, c2 = transport(other, sc2, Bv2, T2, ctx, first=c1)
    lo, hi = degenerate(Ref(spec))
    near("filling, units of %s" % how, b2.filling(), b1.filling(), 0, scale=1.0, atol=1e-9 + hi - lo)
    compare("units of %s times %g" % (how, f), c1, c2, T, g, 5e-4 if how != "lattice" else 0.1, fa, fb, 0.02 if how != "lattice" else 0.4)     # the triangles are orthogonal to the velocity to the order of their size
    ctx.label(how, "factor %g" % f, spec["fam"])
    ctx.nontrivial(bool(B or T))


def axes(case, ctx):
    """axes exchanged and reversed, cubes"""
    spec, sc, B = case["spec"], case["sc"], case["B"]
    perm, signs = case["perm"], case["signs"]
    case = dict(case, T=0)
    if perm[2] != 2:
        sc = dict(models=["isotropic"], par={"gamma_0": sc["par"]["gamma_0"]})
    ok(case, spec, ctx)
    other, R = permuted(spec, perm, signs)
    ok(case, other, ctx)
    Bv = field(B, case["th"], case["ph"])
    det = np.linalg.det(R)
    b1, c1 = transport(spec, sc, Bv, case["T"], ctx, warm=0)
    b2, c2 = transport(other, sc, det * R @ Bv, case["T"], ctx, first=c1)
    # the triangulation of a cube is not symmetric: differences of the order of its error
    near("area of the surface, axes exchanged", b2.dkf.sum(), b1.dkf.sum(), 0.04)
    near("density of states, axes exchanged", b2.dos_epsilon_func() or b2.dos_epsilon, b1.dos_epsilon_func() or b1.dos_epsilon, 0.06)
    near("filling, axes exchanged", b2.filling(11, 11, 11), b1.filling(11, 11, 11), 0, scale=1.0, atol=1e-9 + degenerate(Ref(spec), (11, 11, 11))[1])
    compare("axes %s %s" % (perm, signs), c1, c2, case["T"], lambda x: R @ x @ R.T, 0.06, floor=0.2)
    ctx.label("permutation %s" % perm, "proper" if det > 0 else "improper", spec["fam"])
    ctx.nontrivial(bool(B or case["T"]))


def slices(case, ctx):
    """axes exchanged and reversed in the plane, slices; small pockets included, which have few points each"""
    spec, sc, B = dict(case["spec"], ms=True), dict(models=["isotropic"], par={"gamma_0": case["sc"]["par"]["gamma_0"]}), case["B"]
    if spec["a"] == spec["b"]:
        spec["b"] = round(spec["a"] * case["ratio"], 3)
    spec["k_max"] = [max(spec["k_max"][:2])] * 2 + [spec["k_max"][2]]
    ref = Ref(spec)
    if not surface_exists(ref, 0.0, (61, 61, 11), fmin=0.004):
        ctx.discard()
    for kz in np.linspace(-ref.kmax[2], ref.kmax[2], spec["res"][2] | 1):       # no slice touches the surface in single points
        g = [np.linspace(-m, m, 121) for m in ref.kmax[:2]]
        e = ref.energy(*np.meshgrid(*g, indexing="ij"), kz)
        if min(abs(e.min()), abs(e.max())) < 1e-3 * spec["scale"]:
            ctx.discard()
    other, R = permuted(spec, [1, 0, 2] if case["swap"] else [0, 1, 2], case["signs"])
    Bv = field(B, case["th"], case["ph"])
    det = np.linalg.det(R)
    b1, c1 = transport(spec, sc, Bv, 0, ctx, warm=0)
    b2, c2 = transport(other, sc, det * R @ Bv, 0, ctx, first=c1)
    n1, n2 = np.array(b1.number_of_points_per_kz_list), np.array(b2.number_of_points_per_kz_list)
    if case["signs"][2] < 0:
        n2 = n2[::-1]
    if n1.shape != n2.shape or np.any((n1 > 0) != (n2 > 0)):
        raise Violation("points per slice, axes exchanged: %s instead of %s" % (n2, n1))
    near("length of the contours, axes exchanged", b2.dkf.sum(), b1.dkf.sum(), 0.01)
    few = min(n1[n1 > 0]) < 24
    compare("slices, axes exchanged", c1, c2, 0, lambda x: R @ x @ R.T, 0.3 if few else 0.05, floor=0.3)
    ctx.label("swap" if case["swap"] else "reversed", "few points" if few else "many points", spec["fam"])
    ctx.nontrivial(True)


def zones(case, ctx):
    """momentum shifted by whole steps of the mesh, zone doubled, electrons and holes exchanged: cubes"""
    spec, B = case["spec"], case["B"]
    how, arg = case["how"]
    sc = case["sc"] if how == "hole" else dict(models=["isotropic"], par={"gamma_0": case["sc"]["par"]["gamma_0"]})
    ok(case, spec, ctx)
    Bv = field(B, case["th"], case["ph"])
    tol = 0.01
    other = dict(spec)
    if how == "shift":
        if spec["fam"] == "ellipsoid" or spec["fam"] == "cylinder":
            how, arg = "hole", 0
        else:
            sh = [2 * m * km * pi / (r - 1) for m, km, r in zip(arg, spec["k_max"], spec["res"])]
            other["model"] = subst(spec["model"], {k: "(%s + %r/%s)" % (k, x, l) for k, x, l in zip(("kx", "ky", "kz"), sh, "abc") if x})
    if how == "double":
        d = arg if spec["fam"] in ("cuprate", "ortho", "af") else 2
        if spec["fam"] == "ellipsoid":
            how, arg = "hole", 0
        else:
            other["k_max"] = [x * (2 if i == d else 1) for i, x in enumerate(spec["k_max"])]
            other["res"] = [2 * r - 1 if i == d else r for i, r in enumerate(spec["res"])]
            other["nbz"] = 2 * spec["nbz"]
    if how == "hole":
        other["model"] = "-(%s)" % spec["model"]
    # holes in a field move like electrons in the opposite field
    b1, c1 = transport(spec, sc, -Bv if how == "hole" else Bv, case["T"], ctx, warm=0)
    b2, c2 = transport(other, sc, Bv, case["T"], ctx, first=c1)
    if how == "double":
        near("area of the surface in a doubled zone", b2.dkf.sum(), 2 * b1.dkf.sum(), tol)
    compare("%s %s" % (how, arg), c1, c2, case["T"], lambda x: x, tol, fa=-1.0 if how == "hole" else 1.0, floor=0.2)
    if how == "hole":
        near("filling, electrons and holes", b2.filling() * spec["nbz"], 2 - b1.filling() * spec["nbz"], 0, scale=1.0,
             atol=1e-9 + degenerate(Ref(spec))[1])
    ctx.label(how, spec["fam"])
    ctx.nontrivial(bool(B or case["T"]))


RES = st.sampled_from([[13, 13, 5], [11, 15, 7], [15, 13, 5], [13, 11, 7]])
FINE = st.sampled_from([[21, 21, 9], [19, 23, 11], [23, 19, 9], [21, 19, 11]])
COMMON = dict(B=st.sampled_from([0, 10, 30, 45]), th=q(0, 180, 15), ph=q(-90, 180, 15), T=st.sampled_from([0, 0, 0, 5, 20]))
HOW = st.one_of(st.tuples(st.just("scale"), st.sampled_from([2.0 ** -20, 2.0 ** -10, 0.125, 0.25, 4.0, 1024.0, 2.0 ** 20])), st.tuples(st.just("names"), st.integers(0, 21)),
                st.tuples(st.just("numbers"), st.integers(1, 63)),
                st.tuples(st.just("form"), st.sampled_from(["double angle", "half angle", "sine", "exponential", "sum", "expanded", "tangent"]))).map(list)
gen_same = st.fixed_dictionaries(dict(spec=any_band(res=RES), ms=st.booleans(), sc=scat.models(), how=HOW, **COMMON))
UNITS_ = st.one_of(st.tuples(st.just("energy"), st.sampled_from([2.0 ** -17, 2.0 ** -7, 0.5, 2.0, 128.0, 2.0 ** 14])),
                   st.tuples(st.just("time"), st.sampled_from([2.0 ** -27, 2.0 ** -20, 2.0 ** -14, 2.0 ** -7, 2.0, 128.0, 2.0 ** 17])),
                   st.tuples(st.just("length"), st.sampled_from([2.0 ** -7, 0.25, 2.0, 8.0, 128.0])), st.tuples(st.just("lattice"), st.just(1))).map(list)
DS = st.tuples(*[st.sampled_from([0.5, 0.8, 1, 1.5, 3])] * 3).map(list)
gen_units = st.fixed_dictionaries(dict(spec=any_band(res=RES), ms=st.sampled_from([False, False, True]), sc=scat.models(smooth=True), how=UNITS_, D=DS, **COMMON))
PERM = st.sampled_from([[1, 0, 2], [1, 0, 2], [0, 1, 2], [2, 1, 0], [0, 2, 1], [1, 2, 0], [2, 0, 1]])
SIGNS = st.tuples(*[st.sampled_from([1, -1])] * 3).map(list)
gen_axes = st.fixed_dictionaries(dict(spec=st.one_of(ortho(res=FINE), cylinder(res=FINE), cuprate(res=FINE), ellipsoid(res=st.just([21, 21, 21]))),
                                      sc=scat.models(smooth=True), perm=PERM, signs=SIGNS, **COMMON))
ZONE = st.one_of(st.tuples(st.just("shift"), st.tuples(*[st.integers(-6, 6)] * 3).map(list)), st.tuples(st.just("double"), st.integers(0, 2)),
                 st.tuples(st.just("hole"), st.just(0))).map(list)
gen_zones = st.fixed_dictionaries(dict(spec=any_band(res=st.sampled_from([[17, 17, 7], [15, 19, 9]])), sc=scat.models(), how=ZONE, **COMMON))
COARSE = st.sampled_from([[3, 3, 5], [4, 4, 5], [5, 7, 4], [7, 5, 5], [11, 11, 5]])
gen_slices = st.fixed_dictionaries(dict(spec=st.one_of(pockets(res=COARSE), pockets(res=COARSE), ortho(res=RES), cuprate(res=RES)), sc=scat.models(smooth=True),
                                        swap=st.sampled_from([True, True, False]), signs=SIGNS, ratio=st.sampled_from([1, 0.8, 0.9, 1.02, 1.15]), **COMMON))

SUBS = [Sub("same", gen_same, same, 240, 6000), Sub("units", gen_units, units, 240, 6000), Sub("axes", gen_axes, axes, 144, 4000), Sub("slices", gen_slices, slices, 144, 4000),
        Sub("zones", gen_zones, zones, 144, 4000)]
