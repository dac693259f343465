import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, any_band, slice_band, q, near, pi, clamped_class)

RULE = ("Histories of 2-10 public operations on one band (single parameters, all parameters at once, energy scale, unknown "
        "names, solver, discretisations with either algorithm, energies and resolutions, filling, mass, density of states, "
        "per-kz doping). After every operation each quantity held must be None or equal to the one of a fresh object with the "
        "current parameters asked for the same thing. Non-trivial: a computed quantity was followed by a change of parameters.")

FS = ("kf", "vf", "dkf", "dos_k")
SL = ("dks", "dkz", "number_of_points_per_kz_list")


class World:
    def __init__(self, case):
        self.spec = dict(case["spec"])
        self.cls = clamped_class((21, 21, 7))
        self.cfg = dict(res=list(self.spec["res"]), ms=bool(self.spec.get("ms")), nbz=self.spec["nbz"])
        self.band = self.build(dict(self.spec["params"]), self.spec["scale"], self.cfg)
        self.params, self.scale = dict(self.spec["params"]), self.spec["scale"]
        self.req = {}
        self.cache = {}

    def build(self, params, scale, cfg):
        b = make_band(dict(self.spec, params=params, scale=scale, res=cfg["res"], ms=cfg["ms"], nbz=cfg["nbz"]), self.cls, warm=0)
        b.res_xy_rough = 101
        return b

    def exists(self, eps):
        ref = Ref(self.spec, self.params, self.scale)
        g = [np.linspace(-m, m, r) for m, r in zip(ref.kmax, [41, 41, self.cfg["res"][2]])]
        e = ref.energy(*np.meshgrid(*g, indexing="ij")) - eps
        return 0.05 < np.mean(e > 0) < 0.95

    # -- a fresh object asked for the same thing, with the current parameters ---------------------------
    def fresh(self, req):
        key = repr((req, sorted(self.params.items()), self.scale))
        if key not in self.cache:
            b = self.build(dict(self.params), self.scale, req["cfg"])
            out = None
            try:
                if "eps" in req:
                    b.discretize_fermi_surface(epsilon=req["eps"])
                    b.dos_epsilon_func()
                    if req["cfg"]["ms"]:
                        b.mass_func()
                if "grid" in req:
                    b.doping(*req["grid"])
                out = {k: getattr(b, k) for k in FS + SL + ("mass", "dos_epsilon", "n", "p")}
            except (ValueError, TypeError, NameError):
                out = {}            # no surface at all with these parameters
            self.cache[key] = out
        return self.cache[key]

    def check(self, after):
        b = self.band
        held = []
        for name in FS + SL + ("mass", "dos_epsilon", "n", "p"):
            v = getattr(b, name)
            if v is None or (name == "number_of_points_per_kz_list" and len(v) == 0):
                continue
            if name not in self.req:
                raise Violation("after %s: %s is there but was never computed" % (after, name))
            w = self.fresh(self.req[name]).get(name)
            v = np.asarray(v, float)
            w = None if w is None else np.asarray(w, float)
            if w is None or v.shape != w.shape or not np.allclose(v, w, rtol=1e-6, atol=1e-9 * (np.max(np.abs(w)) if w.size else 0), equal_nan=True):
                raise Violation("after %s: %s is not that of a fresh object with the current parameters" % (after, name))
            held.append(name)
        for k, v in self.params.items():
            if b[k] != v or b.get_band_param(k) != v or b.band_params[k] != v:
                raise Violation("after %s: parameter %s reads %s instead of %s" % (after, k, b[k], v))
        if dict(b.band_params) != self.params or b.energy_scale != self.scale:
            raise Violation("after %s: parameters %s instead of %s" % (after, b.band_params, self.params))
        return held


def apply(w, op):
    """returns True when parameters changed"""
    b, kind = w.band, op[0]
    if kind in ("set", "setp"):
        name = sorted(w.params)[op[1] % len(w.params)]
        v = round(w.params[name] * op[2], 8) if w.params[name] else 0.01
        (b.__setitem__ if kind == "set" else b.set_band_param)(name, v)
        w.params[name] = v
        return True
    if kind == "all":
        new = {k: round(v * op[1], 8) for k, v in w.params.items()}
        b.band_params = dict(new)
        w.params = new
        return True
    if kind == "alias":         # the caller goes on using the dictionary given
        name = sorted(w.params)[op[1] % len(w.params)]
        given = dict(w.params)
        b.band_params = given
        given[name] = 0.77
        given["other"] = 1.0
        return True
    if kind == "share":         # another band takes over the parameters, then changes
        name = sorted(w.params)[op[1] % len(w.params)]
        other = w.build(dict(w.params), w.scale, w.cfg)
        other.doping(9, 9, 3)
        other.band_params = b.band_params
        other[name] = 0.77
        other.energy_scale = 2 * w.scale
        if other.n is not None or other[name] != 0.77 or other.energy_scale != 2 * w.scale:
            raise Violation("a second band with the parameters of the first one kept its filling or lost its own parameters")
        return False
    if kind == "same":          # parameters written again with the values they have
        name = sorted(w.params)[op[1] % len(w.params)]
        b[name] = w.params[name]
        return True
    if kind == "scale":
        w.scale = round(w.scale * op[1], 7)
        b.energy_scale = w.scale
        return True
    if kind == "unknown":
        (b.__setitem__ if op[1] else b.set_band_param)("unknown_name", 0.5)
        return False
    if kind in ("fs", "run"):
        eps = op[1] * w.scale * 0.05
        if not w.exists(eps):
            return False
        cfg = dict(w.cfg, res=list(w.cfg["res"]))
        if kind == "fs":
            b.discretize_fermi_surface(epsilon=eps)
        else:
            b.runBandStructure(epsilon=eps)
            r = [x if x % 2 else x + 1 for x in cfg["res"]]
            g = dict(cfg=cfg, grid=[10 * x for x in r])
            w.req["n"] = w.req["p"] = g
        for k in FS + (SL if cfg["ms"] else ()):
            w.req[k] = dict(cfg=cfg, eps=eps)
        w.last = dict(cfg=cfg, eps=eps)
        for k in FS:
            if getattr(b, k) is None:
                raise Violation("%s is None after a discretisation" % k)
        return False
    if kind == "doping":
        grid = op[1]
        got = [b.doping, lambda *g: 1 - b.filling(*g), lambda *g: 1 - b.update_filling(*g)][op[2]](*grid)
        w.req["n"] = w.req["p"] = dict(cfg=dict(w.cfg, res=list(w.cfg["res"])), grid=grid)
        near("doping returned", got, w.fresh(w.req["n"])["p"], 1e-9, scale=1)
        return False
    if kind == "per_kz":
        n1, p1 = b.doping_per_kz(11, 11, 5)
        n2, p2 = w.build(dict(w.params), w.scale, w.cfg).doping_per_kz(11, 11, 5)
        near("doping per kz", p1, p2, 1e-9, scale=1)
        return False
    if kind == "mass":
        if b.dks is None or b.kf is None or not w.last["cfg"]["ms"]:
            return False
        if w.cfg["res"][2] != w.last["cfg"]["res"][2]:
            return False            # the average over kz uses the present number of slices
        b.mass_func()
        w.req["mass"] = w.last
        return False
    if kind == "dos":
        if b.kf is None:
            return False
        b.dos_epsilon_func()
        w.req["dos_epsilon"] = w.last
        return False
    if kind == "mu":
        probe = w.build(dict(w.params), w.scale, w.cfg)
        ps = []
        for m in (-10, w.params["mu"] - 0.4, w.params["mu"] + 0.4, 10):
            probe["mu"] = m
            ps.append(probe.doping())
        target = round(ps[1] + op[1] * (ps[2] - ps[1]), 4)
        if not min(ps[0], ps[3]) + 1e-3 < target < max(ps[0], ps[3]) - 1e-3:
            return False
        b.set_mu_to_doping(target)
        w.params["mu"] = float(b["mu"])
        w.req.setdefault("n", dict(cfg=dict(w.cfg), grid=[500, 500, 500]))
        w.req.setdefault("p", w.req["n"])
        if b.n is not None:
            # if the solver keeps the filling of its last step, the request was its default grid
            w.req["n"] = w.req["p"] = dict(cfg=dict(w.cfg), grid=[500, 500, 500])
        return True
    if kind == "res":
        w.cfg = dict(w.cfg, res=list(op[1]))
        b.resolution = list(op[1])
        return False
    if kind == "ms":
        if w.spec.get("ms"):
            w.cfg = dict(w.cfg, ms=op[1])
            b.march_square = op[1]
        return False
    raise KeyError(kind)


def history(case, ctx):
    w = World(case)
    w.check("construction")
    nontrivial = False
    for op in case["ops"]:
        before = [k for k in FS + SL + ("mass", "dos_epsilon", "n", "p") if getattr(w.band, k) is not None]
        changed = apply(w, op)
        w.check(str(op))
        ctx.label(op[0])
        nontrivial = nontrivial or (changed and len(before) > 1)
    ctx.nontrivial(nontrivial)


ODD = st.sampled_from([[11, 11, 3], [13, 11, 5], [15, 17, 7], [9, 9, 3]])
EPS = st.sampled_from([0, 0, 0, 1, -1, 0.5])
GRID = st.sampled_from([[20, 20, 6], [15, 17, 5], [21, 21, 7], [8, 8, 2]])
op = st.one_of(
    st.tuples(st.sampled_from(["set", "setp"]), st.integers(0, 4), st.sampled_from([0.97, 1.03, 0.9, 1.1, 0.0, 1.0003, 1.00003])),
    st.tuples(st.just("set"), st.integers(0, 0), st.sampled_from([0.97, 1.03, 1.00003])),
    st.tuples(st.just("all"), st.sampled_from([0.95, 1.05, 1.00003])),
    st.tuples(st.sampled_from(["alias", "share", "same"]), st.integers(0, 4)),
    st.tuples(st.just("scale"), st.sampled_from([0.5, 2.0, 1.1, 1.00003])),
    st.tuples(st.just("unknown"), st.booleans()),
    st.tuples(st.sampled_from(["fs", "fs", "run"]), EPS),
    st.tuples(st.just("fs"), st.just(0)),
    st.tuples(st.just("doping"), GRID, st.integers(0, 2)),
    st.tuples(st.just("per_kz")), st.tuples(st.just("mass")), st.tuples(st.just("dos")), st.tuples(st.just("dos")),
    st.tuples(st.just("mu"), q(0.2, 0.8, 0.1)),
    st.tuples(st.just("res"), ODD), st.tuples(st.just("ms"), st.booleans())).map(list)
compute = st.one_of(st.tuples(st.sampled_from(["fs", "run"]), EPS), st.tuples(st.just("doping"), GRID, st.integers(0, 2)),
                    st.tuples(st.just("mass")), st.tuples(st.just("dos")), st.tuples(st.just("ms"), st.booleans())).map(list)
gen = st.fixed_dictionaries(dict(
    spec=st.one_of(slice_band(res=ODD), any_band(res=ODD)),
    ops=st.tuples(st.lists(compute, min_size=1, max_size=4), st.lists(op, min_size=1, max_size=8)).map(lambda t: t[0] + t[1])))

SUBS = [Sub("history", gen, history, 1600, 40000)]
