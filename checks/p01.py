import re
import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import Ref, make_band, any_band, q, near, pi

RULE = ("Random dispersion formulas (sums of products of parameters, trigonometric functions of integer "
        "combinations of a*kx, b*ky, c*kz, powers, quotients, square roots) over random parameter names, values, "
        "lattices and scales, plus the band zoo; energy compared to Python's own evaluation of the formula, velocity to "
        "its complex-step gradient. Non-trivial: the formula depends on k and at least one velocity component is "
        "non-zero at the sampled points.")

NAMES = ["E", "I", "N", "S", "Q", "O", "beta", "gamma", "zeta", "t", "tp", "tpp", "tz", "mu", "M", "Delta", "V", "t1", "t_2", "tperp", "mu_0", "w", "aa", "x", "y", "A",
         "b1", "c2", "t2", "t10", "t11", "t3_", "delta", "Z0", "kappa", "kx0", "u", "r"]


@st.composite
def factor(draw):
    kind = draw(st.sampled_from(["cos", "sin", "cosmix", "cos2", "half", "pow", "sqrtf", "ratio", "expf"]))
    ax = draw(st.sampled_from([("a", "kx"), ("b", "ky"), ("c", "kz")]))
    ay = draw(st.sampled_from([("a", "kx"), ("b", "ky"), ("c", "kz")]))
    n = draw(st.integers(1, 3))
    m = draw(st.integers(-2, 2))
    k1 = "%s*%s" % ax
    k2 = "%s*%s" % ay
    if kind == "cos":
        return "cos(%d*%s)" % (n, k1)
    if kind == "sin":
        return "sin(%d*%s)" % (n, k1)
    if kind == "cosmix":
        return "cos(%d*%s%+d*%s)" % (n, k1, m, k2)
    if kind == "cos2":
        return "(cos(%s) - cos(%s))**2" % (k1, k2)
    if kind == "half":
        return "cos(%s/2)" % k1
    if kind == "pow":
        return "(%s)**%d" % (k1, n)
    if kind == "sqrtf":
        return "sqrt(%d + cos(%s)*sin(%s))" % (n + 1, k1, k2)
    if kind == "ratio":
        return "1/(%d + cos(%s))" % (n + 1, k1)
    return "exp(-cos(%s)**2)" % k1


@st.composite
def expr_spec(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=6, unique=True))
    terms = []
    for i in range(draw(st.integers(1, 5))):
        p = names[i % len(names)] if i < len(names) else draw(st.sampled_from(names))
        co = draw(st.sampled_from(["", "2*", "-", "0.5*", "-4*", "1/3*", "0.12345678*", "1.0009*", "3/7*"]))
        fs = draw(st.lists(factor(), min_size=0 if i else 1, max_size=3))
        terms.append(co + "*".join([p] + fs))
    if draw(st.booleans()):
        a, b = draw(st.sampled_from(names)), draw(st.sampled_from(names))
        terms.append("sqrt((%s*cos(a*kx)+%s*sin(b*ky))**2 + %s**2 + %s**2)" % (a, b, a, b))
    model = terms[0]
    for t in terms[1:]:
        model = ("%s - (%s)" if draw(st.booleans()) else "%s + (%s)") % (model, t)
    vals = {n: draw(st.one_of(q(-2, 2, 0.05), q(-2, 2, 0.05), st.integers(-6, 6))) for n in names}
    return dict(model=model, a=draw(q(2, 6, 0.1)), b=draw(q(2, 6, 0.1)), c=draw(q(4, 15, 0.1)),
                scale=draw(st.one_of(q(1, 400, 0.5), st.integers(1, 300))), params=vals, k_max=[1, 1, 2], res=[5, 5, 5])


KS = st.lists(st.lists(st.integers(-40, 40), min_size=3, max_size=3), min_size=1, max_size=6)


def kpoints(case, spec):
    k = np.array(case["k"], float).T * (pi / 10)           # up to 4 zones away
    return k / np.array([[spec["a"]], [spec["b"]], [spec["c"]]])


def shaped(k, shape):
    if shape == "scalar":
        return tuple(float(x) for x in k[:, 0]), k[:, :1]
    if shape == "2d":
        return tuple(np.stack([x, x[::-1]]) for x in k), k
    if shape == "3d":
        return tuple(x.reshape(1, -1, 1) for x in k), k
    return tuple(k), k


def compare(band, ref, args, what):
    e = np.asarray(band.energy_func(*args), float)
    want = ref.energy(*args)
    sc = sum(abs(v) for v in ref.vals.values()) + 1e-9
    near(what + " energy", np.broadcast_to(e, want.shape), want, 1e-9, scale=max(sc, np.max(np.abs(want))))
    v = band.velocity_func(*args)
    if len(v) != 3:
        raise Violation("velocity has %d components" % len(v))
    wv = ref.velocity(*args)
    if not np.all(np.isfinite(wv)):
        return False
    gs = max(np.max(np.abs(wv)), sc * 1.6e-22 / 1.05e-34 * 1e-10 * 1e-3)
    for i in range(3):
        near(what + " velocity component %d" % i, np.broadcast_to(np.asarray(v[i], float), want.shape), wv[i], 1e-8,
             scale=gs)
    return bool(np.any(np.abs(wv) > 0))


def ok_point(ref, k):
    """away from branch points of the formula (sqrt at zero)"""
    m = re.search(r"\+ (\w+)\*\*2 \+ (\w+)\*\*2\)", ref.spec["model"])
    if m and not any(ref.vals[n] for n in m.groups()):
        return False                        # sqrt of exactly zero everywhere
    if "M**2)" in ref.spec["model"] and ref.vals.get("M") == 0:
        return False
    with np.errstate(all="ignore"):
        e, g = ref.energy(*k), ref.grad(*k)
        for d in (1e-7, -1.3e-7):          # no kink of the formula within 1e-7 of the point
            g2 = ref.grad(k[0] + d, k[1] - 0.7 * d, k[2] + 0.4 * d)
            if not np.all(np.abs(g2 - g) <= 1e-3 * np.max(np.abs(g)) + 1e-4 * np.max(np.abs(e)) + 1e-12):
                return False
    return np.all(np.isfinite(e)) and np.all(np.isfinite(g)) and np.max(np.abs(g)) < 1e6 * (1 + np.max(np.abs(e)))


def formula(case, ctx):
    spec = case["spec"]
    ref = Ref(spec)
    k = kpoints(case, spec)
    if not ok_point(ref, k):
        ctx.discard()
    order = list(spec["params"].items())
    if case["reverse"]:
        order = order[::-1]
    band = make_band(dict(spec, params=dict(order)))
    args, _ = shaped(k, case["shape"])
    nz = compare(band, ref, args, case["shape"])
    ctx.nontrivial(nz)
    ctx.label(case["shape"], "npar%d" % len(spec["params"]))


gen_formula = st.fixed_dictionaries(dict(spec=expr_spec(), k=KS, reverse=st.booleans(),
                                         shape=st.sampled_from(["scalar", "1d", "2d", "3d"])))


# -- after parameter changes ------------------------------------------------------------
@st.composite
def gen_hist(draw):
    spec = draw(st.one_of(expr_spec(), any_band()))
    ops = []
    names = sorted(spec["params"])
    for _ in range(draw(st.integers(1, 6))):
        op = draw(st.sampled_from(["item", "set", "dict", "scale", "unknown", "lattice", "nudge"]))
        v = draw(q(-2, 2, 0.05))
        if op in ("item", "set"):
            ops.append([op, draw(st.sampled_from(names)), v])
        elif op == "nudge":     # a small step, as those of a fit or of a root search
            ops.append([op, draw(st.sampled_from(names)), draw(st.sampled_from([1e-3, 1e-4, -1e-5, 1e-6]))])
        elif op == "dict":
            vals = {n: draw(q(-2, 2, 0.05)) for n in names}
            perm = draw(st.permutations(names))
            ops.append([op, [[n, vals[n]] for n in perm]])
        elif op == "scale":
            ops.append([op, draw(q(1, 400, 0.5))])
        elif op == "lattice":
            ops.append([op, draw(st.sampled_from("abc")), draw(q(2, 15, 0.1))])
        else:
            ops.append([op, draw(st.sampled_from(["zzz", "t9", "kx", "a"])), v])
    return dict(spec=spec, ops=ops, k=draw(KS))


def history(case, ctx):
    spec = dict(case["spec"], params=dict(case["spec"]["params"]))
    band = make_band(spec)
    nz = False
    for op in case["ops"]:
        if op[0] in ("item", "set"):
            if op[0] == "item":
                band[op[1]] = op[2]
            else:
                band.set_band_param(op[1], op[2])
            spec["params"][op[1]] = op[2]
            if not (band[op[1]] == op[2] and band.get_band_param(op[1]) == op[2]):
                raise Violation("parameter %s reads back as %r after being set to %r" % (op[1], band[op[1]], op[2]))
        elif op[0] == "nudge":
            value = spec["params"][op[1]] * (1 + op[2]) + (op[2] if not spec["params"][op[1]] else 0)
            band[op[1]] = spec["params"][op[1]] = value
        elif op[0] == "dict":
            band.band_params = dict(op[1])
            spec["params"] = dict(op[1])
        elif op[0] == "scale":
            band.energy_scale = op[1]
            spec["scale"] = op[1]
        elif op[0] == "lattice":
            setattr(band, op[1], op[2])
            spec[op[1]] = op[2]
        elif op[1] not in spec["params"]:
            band[op[1]] = op[2]
        if dict(band.band_params) != spec["params"]:
            raise Violation("after %s the parameters are %s instead of %s" % (op, band.band_params, spec["params"]))
        ref = Ref(spec)
        k = kpoints(case, spec)
        if not ok_point(ref, k):
            continue
        nz = compare(band, ref, tuple(k), "after %s:" % (op,)) or nz
    ctx.nontrivial(nz)
    ctx.label("nops%d" % len(case["ops"]))


# -- compiled code ----------------------------------------------------------------------
def compiled(case, ctx):
    spec = case["spec"]
    ref = Ref(spec)
    k = kpoints(case, spec)
    if not ok_point(ref, k):
        ctx.discard()
    band = make_band(spec)
    nz = compare(band, ref, tuple(np.ascontiguousarray(x) for x in k), "compiled")
    name = sorted(spec["params"])[case["which"] % len(spec["params"])]
    band[name] = case["val"]
    spec = dict(spec, params=dict(spec["params"], **{name: case["val"]}))
    ref = Ref(spec)
    if ok_point(ref, k):
        compare(band, ref, tuple(np.ascontiguousarray(x) for x in k), "compiled, changed")
    ctx.nontrivial(nz)
    ctx.label("parallel" if spec["parallel"] else "serial", spec.get("fam", "formula"))


gen_compiled = st.builds(lambda s, p, k, w, v: dict(spec=dict(s, parallel=p), k=k, which=w, val=v),
                         st.one_of(any_band(), expr_spec(), expr_spec()), st.sampled_from([True, True, False]), KS, st.integers(0, 5), q(0.1, 1, 0.05))


# -- the grid the fillings and surfaces are computed on ------------------------------------
def grid(case, ctx):
    spec = case["spec"]
    spec = dict(spec, k_max=case["kmax"])
    band, ref = make_band(spec), Ref(spec)
    r = case["n"]
    energy, kxx, kyy, kzz, kx, ky, kz = band.dispersion_grid(list(r))
    if energy.shape != tuple(r) or kxx.shape != tuple(r) or kyy.shape != tuple(r) or kzz.shape != tuple(r):
        raise Violation("grid of shape %s for resolution %s" % (energy.shape, r))
    near("grid energy", energy, ref.energy(kxx, kyy, kzz), 1e-9, scale=sum(abs(v) for v in ref.vals.values()))
    for i, (ax, full) in enumerate(((kx, kxx), (ky, kyy), (kz, kzz))):
        sh = [1, 1, 1]
        sh[i] = -1
        near("grid axis %d" % i, np.broadcast_to(np.reshape(ax, sh), full.shape), full, 1e-12, scale=ref.kmax[i])
        step = np.diff(ax)
        near("grid step %d" % i, step, np.full(r[i] - 1, step.mean()), 1e-6, scale=ref.kmax[i])
        if np.max(np.abs(ax)) > ref.kmax[i] * (1 + 1e-9):
            raise Violation("grid leaves the zone along axis %d" % i)
        if ref.kmax[i] * 2 - (ax[-1] - ax[0]) > 1.001 * step[0]:
            raise Violation("grid does not span the zone along axis %d: from %g to %g, zone +-%g" %
                            (i, ax[0], ax[-1], ref.kmax[i]))
        near("grid symmetric along axis %d" % i, ax[0] + ax[-1], 0.0, 1.001 * step[0] / ref.kmax[i], scale=ref.kmax[i])
    ctx.nontrivial(len(set(r)) > 1)


gen_grid = st.fixed_dictionaries(dict(spec=any_band(), n=st.one_of(*[st.lists(st.integers(2, 9), min_size=3, max_size=3)] * 12, st.just([90, 81, 70])),
                                      kmax=st.lists(st.sampled_from([0.5, 1, 2]), min_size=3, max_size=3)))

# -- as many wave vectors as the fillings and the rough meshes of the slices have ------------
def large(case, ctx):
    spec = case["spec"]
    band, ref = make_band(spec), Ref(spec)
    r = np.random.RandomState(case["seed"])
    n = case["n"]
    k = r.uniform(-2, 2, (3, n)) * ref.kmax[:, None]
    if case["shape"] == "3d":
        k = k[:, :n // 100 * 100].reshape(3, 10, -1, 10)
    args = list(k)
    if case["shape"] == "kz scalar":
        args[2] = float(k[2].ravel()[0])
    compare(band, ref, tuple(args), "%d wave vectors" % n)
    ctx.label(case["shape"], "more than 1e5" if n > 1e5 else "fewer")
    ctx.nontrivial(n > 1e5)


gen_large = st.fixed_dictionaries(dict(spec=any_band(), seed=st.integers(0, 999), n=st.sampled_from([3000, 50000, 251001, 1002001, 1500000]),
                                       shape=st.sampled_from(["1d", "3d", "kz scalar"])))

SUBS = [Sub("large", gen_large, large, 16, 300), Sub("formula", gen_formula, formula, 800, 20000),
        Sub("history", gen_hist(), history, 400, 6000),
        Sub("grid", gen_grid, grid, 120, 4000),
        Sub("compiled", gen_compiled, compiled, 20, 200, jit=True)]
JIT_PROCS = 2
