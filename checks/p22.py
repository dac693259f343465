import copy
import os
import re
import shutil
import tempfile
import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib import scat
from vlib.bands import q, pi, band_kwargs, cuprate, ortho, cylinder, afband, Ref, surface_exists
from vlib.trans import omega_tau
from vlib.fits import freeze, modules, member, small_grids, write_table, files

RULE = ("Two or three objects (bands, transport, sweeps) built from the same dictionaries, lists and band object, with operations in a random "
        "interleaving, changes in place of their attributes and of the caller's inputs; every observation against the same object "
        "alone; the inputs, the shared band and the defaults compared after every operation. The same with fit objects. Non-trivial: at least two "
        "objects with observations after a change of another one.")


def classes():
    from cuprates_transport.bandstructure import BandStructure
    from cuprates_transport.conductivity import Conductivity
    from cuprates_transport.admr import ADMR
    from cuprates_transport.scattering import Scattering
    return BandStructure, Conductivity, ADMR, Scattering


_PRISTINE = {}


def defaults():
    return {c.__name__: freeze([c.__init__.__defaults__ or (), c.__init__.__kwdefaults__ or {}]) for c in classes()}


def restore_defaults():
    """what an earlier case may have spoiled"""
    for c in classes():
        if c.__name__ not in _PRISTINE:
            _PRISTINE[c.__name__] = copy.deepcopy(c.__init__.__defaults__)
        c.__init__.__defaults__ = copy.deepcopy(_PRISTINE[c.__name__])


def arr(x):
    return None if x is None else np.array(x, float)


def band_state(b):
    return freeze([arr(getattr(b, n)) if getattr(b, n) is not None else None for n in ("kf", "vf", "dkf", "dos_k", "n", "p", "a", "b", "c", "energy_scale")] +
                  [dict(b.band_params), list(b.resolution), list(b.k_max), b.march_square, b.number_of_bz, b.band_name])


class Inputs:
    """what the caller holds"""

    def __init__(self, case):
        self.band = band_kwargs(case["spec"])
        self.sc = dict(scattering_models=list(case["sc"]["models"]), scattering_params=dict(case["sc"]["par"]))
        self.phis = list(case["phis"])
        BandStructure = classes()[0]
        self.B = case["B"]
        before = freeze([self.band, self.sc, self.phis])
        self.shared = BandStructure(**self.band)
        if freeze([self.band, self.sc, self.phis]) != before:
            raise Violation("building a band changed its inputs: %s instead of %s" % (freeze([self.band, self.sc, self.phis]), before))
        self.shared.res_xy_rough = 101
        if case["ran"]:
            self.shared.runBandStructure()

    def frozen(self):
        return freeze([self.band, self.sc, self.phis, band_state(self.shared)])


class Actor:
    def __init__(self, kind, inp):
        BandStructure, Conductivity, ADMR, _ = classes()
        self.kind = kind
        self.band = self.cond = self.admr = None
        if kind == "band":
            self.band = BandStructure(**inp.band)
        elif kind == "default":
            self.band = BandStructure(a=3.75, b=3.75, c=13.2, energy_scale=160, parallel=False)
        else:
            self.cond = Conductivity(inp.shared, inp.B, N_time=40, **inp.sc)
            self.band = self.cond.bandObject
            if kind == "admr":
                self.admr = ADMR([self.cond], Btheta_min=0, Btheta_max=40, Btheta_step=20, Bphi_array=inp.phis, show_progress=False)
            elif kind == "admr default":
                self.admr = ADMR([self.cond], Btheta_max=20, Btheta_step=20, show_progress=False)
        self.band.res_xy_rough = 101

    def do(self, op):
        """observation or None"""
        b, c, a = self.band, self.cond, self.admr
        k = op[0]
        if k == "param":
            names = sorted(b.band_params)
            n = names[op[1] % len(names)]
            b[n] = round(b.band_params[n] * op[2], 6)
        elif k == "scale":
            b.energy_scale = b.energy_scale * op[2]
        elif k == "res":
            b.resolution[0] = 11 if op[1] % 2 else 13
        elif k == "kmax":
            b.k_max[2] = b.k_max[2] * (0.5 if op[1] % 2 else 0.75)
        elif k == "gamma" and c:
            c.gamma_0 = c.gamma_0 * op[2]
        elif k == "params" and c:
            c.scattering_params = {m: v * (op[2] if m.startswith("gamma") else 1) for m, v in c.scattering_params.items()}
        elif k == "inplace" and c:
            c.scattering_params["gamma_0"] = c.scattering_params["gamma_0"] * op[2]
            c.scattering_params = dict(c.scattering_params)
        elif k == "models" and c:
            if op[1] % 2 and len(c.scattering_models) > 1:
                c.scattering_models.pop()
            else:
                c.scattering_models.reverse()
        elif k == "field" and c:
            c.Bamp, c.Btheta, c.Bphi = op[1] % 40, 30 * op[2], 15
        elif k == "angles" and a:
            a.Bphi_array[0] = op[1] % 90
        elif k == "thetas" and a:
            a.Btheta_array = np.array([0.0, 10.0 * op[2]])
        elif k == "run":
            b.runBandStructure()
            out = [arr(b.kf), arr(b.vf), arr(b.dkf), arr(b.dos_k), arr([b.n, b.p])]
            if c:
                if "isotropic" not in c.scattering_models:
                    c.scattering_models.append("isotropic")
                c.runTransport()
                out += [arr(c.sigma), arr(c.kft[:, ::3]), arr(c.scattering_params["gamma_0"])]
            if a:
                a.runADMR()
                out += [arr(a.rhozz_array), arr(a.rzz_array), arr(a.Bphi_array), arr(a.Btheta_array)]
            return out
        elif k == "doping":
            return [arr(b.doping(15, 15, 5))]
        return None


def caller(inp, op):
    """the caller goes on using its own objects"""
    k = op[1] % 6
    if k == 0:
        n = "mu" if "mu" in inp.band["band_params"] else "shift"
        inp.band["band_params"][n] = inp.band["band_params"][n] * 0.99
    elif k == 1:
        inp.sc["scattering_params"]["gamma_0"] = 77.0
    elif k == 2:
        inp.sc["scattering_models"][:] = ["isotropic"]
    elif k == 3:
        n = "mu" if "mu" in inp.shared.band_params else "shift"
        inp.shared[n] = inp.shared[n] * 0.99
        inp.shared.runBandStructure()
    elif k == 4:
        inp.phis[0] = 33.0
    else:
        inp.band["resolution"][2] = 7
        inp.band["k_max"][2] = pi / 2


def attempt(f):
    """result, or the kind of error: with no surface left both runs fail alike"""
    try:
        return f()
    except Exception as e:
        return "raised %s" % type(e).__name__


def same(x, y):
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return x is y or (isinstance(x, str) and isinstance(y, str) and x == y)
    return len(x) == len(y) and all(u.shape == v.shape and np.allclose(u, v, rtol=1e-9, atol=1e-9 * np.max(np.abs(v), initial=1e-300), equal_nan=True)
                                    for u, v in zip(x, y))


def renamed(spec):
    """the same band with another name for its chemical potential"""
    return dict(spec, model=re.sub(r"\bmu\b", "shift", spec["model"]), params={"shift" if n == "mu" else n: v for n, v in spec["params"].items()})


def interleaved(case, ctx):
    restore_defaults()
    if case["nomu"]:
        case = dict(case, spec=renamed(case["spec"]))
    spec = case["spec"]
    if not surface_exists(Ref(spec), 0.0, [41, 41, spec["res"][2]] if spec.get("ms") else spec["res"], 0.06 * spec["scale"]):
        ctx.discard()
    inp0 = Inputs(case)
    probe = inp0 if case["ran"] else Inputs(dict(case, ran=True))
    if omega_tau(probe.shared, case["sc"], case["B"]) > 6:
        ctx.discard()
    first = defaults()
    kinds = case["actors"]
    alone = []
    for i, kind in enumerate(kinds):
        a = Actor(kind, Inputs(case))
        alone.append([attempt(lambda: a.do(op)) for j, op in case["ops"] if j % len(kinds) == i and op[0] != "caller"] + [attempt(lambda: a.do(["run"]))])
        if defaults() != first:
            raise Violation("the defaults changed: %s instead of %s" % (defaults(), first))
    restore_defaults()
    inp = Inputs(case)
    keep = inp.frozen()
    if keep != inp0.frozen():
        raise Violation("the same inputs give another band object")

    def check(what):
        if inp.frozen() != keep:
            raise Violation("%s changed the inputs: %s instead of %s" % (what, str(inp.frozen())[:300], str(keep)[:300]))
        if defaults() != first:
            raise Violation("%s changed the defaults: %s instead of %s" % (what, defaults(), first))
    actors = []
    for kind in kinds:
        actors.append(Actor(kind, inp))
        check("building " + kind)
    got = [[] for _ in kinds]
    order = []
    for j, op in case["ops"] + [[i, ["run"]] for i in range(len(kinds))]:
        i = j % len(kinds)
        if op[0] == "caller":
            if not case["live"]:
                continue
            try:
                caller(inp, op)
            except Exception:
                ctx.discard()
            keep = inp.frozen()
            order.append(("caller", True))
            continue
        got[i].append(attempt(lambda: actors[i].do(op)))
        check("%s of %s" % (op[0], kinds[i]))
        n = len(got[i]) - 1
        if not same(got[i][n], alone[i][n]):
            raise Violation("%s of %s (object %d) after %s differs from the same object alone: %s / %s" %
                            (op[0], kinds[i], i, order, str(got[i][n])[:200], str(alone[i][n])[:200]))
        order.append((i, op[0] in ("run", "doping")))
    ctx.label(*kinds)
    ok = any(o and i != "caller" and any(k != i and not r for k, r in order[:n]) for n, (i, o) in enumerate(order))
    if all(isinstance(g[-1], str) for g in got):
        ok = False
    ctx.nontrivial(ok and len(kinds) > 1)


# -- fits -----------------------------------------------------------------------------------------
SPEC = dict(model="-mu + 2*t*(2 - cos(a*kx) - cos(b*ky)) - 2*tz*cos(c*kz)", a=3.8, b=3.8, c=10.0, scale=100.0,
            params=dict(mu=2.0, t=1.0, tz=0.1), k_max=[1, 1, 1], res=[9, 9, 4], nbz=1)


def fits(case, ctx):
    """two fit objects from the same dictionaries, evaluated in turns"""
    root = tempfile.mkdtemp(prefix="p22_")
    try:
        with small_grids(rough=51):
            _fits(case, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _fits(case, ctx, root):
    drv = case["driver"]
    mod = modules()[drv]
    T, phi = 25, 30.0
    path = os.path.join(root, "d.dat")
    th = np.arange(0, 90, 10.0)
    write_table(path, th, 1 + 0.2 * np.sin(th / 20) ** 2, 0, 1, 2, "up", 1)
    sc = dict(models=["isotropic", "cos2phi"], par=dict(gamma_0=10.0, gamma_k=4.0, power=4))
    spec = dict(SPEC, params=dict(SPEC["params"], mu=case["mu"]))
    names = case["free"]
    start = dict(gamma_0=10.0, mu=case["mu"], tz=0.1, Bamp=30, gamma_k=4.0, energy_scale=100.0)
    b = {n: [start[n] * 0.8, start[n] * 1.2] if n != "mu" else [start[n] * 0.97, start[n] * 1.03] for n in names}
    if drv == "multiT":
        data = {(T, phi): [path, 0, 1, 0, 60, 20, 0, 1.0]}
        m = {T: {"band": member(spec, sc, 30)}}
        bd = {T: {"band": b}}
        make = lambda i: mod.Fitness(i[0], i[1], i[2])
    else:
        data = {(T, phi): [path, 0, 1, 60, 1e-5]}
        m = dict(member(spec, sc, 30), data_T=[T] if drv == "seriesT" else T, data_p=0.2, Btheta_min=0.0, Btheta_max=60.0, Btheta_step=20.0, Bphi_array=[phi])
        bd = b
        cls = mod.FittingADMRParallel if drv == "oneT" else mod.FittingADMR
        make = lambda i: cls(i[1], i[2], i[0], folder=root)

    def evaluate(f, x):
        x = [lo + (hi - lo) * v for (lo, hi), v in zip(b.values(), x)]
        if drv == "multiT":
            return float(f.compute_fitness(np.array(x)))
        if drv == "oneT":
            return float(f.compute_diff2(np.array([v for _, v in sorted(zip(b, x))])))
        p = copy.deepcopy(f.pars)
        for n, v in zip(list(p), x):
            p[n].value = v
        return float(np.sum(np.asarray(f.compute_diff(p)) ** 2))
    if case["others"]:                      # curves of other fits in the same dictionary
        data = dict(data)
        data[99, phi] = [path, 0, 1, 0, 40, 10, 0, 2.0] if drv == "multiT" else [path, 0, 1, 30, 2e-5]
        if drv != "multiT":
            data[T, 77.5] = [path, 0, 1, 20, 3e-5]
    pristine = copy.deepcopy([data, m, bd])
    alone = []
    for i in range(2):
        f = make(copy.deepcopy(pristine))
        alone.append([evaluate(f, x) for j, x in case["points"] if j % 2 == i])
    shared = copy.deepcopy(pristine)
    keep, disk = freeze(shared), files(root)
    fs = [make(shared), make(shared)]
    n = [0, 0]
    for k, (j, x) in enumerate(case["points"]):
        if freeze(shared) != keep:
            raise Violation("the fit changed its inputs")
        i = j % 2
        v = evaluate(fs[i], x)
        if not abs(v - alone[i][n[i]]) <= 1e-9 * abs(v) + 1e-18:
            raise Violation("objective %.12g of one of two fits instead of %.12g alone" % (v, alone[i][n[i]]))
        n[i] += 1
    if freeze(shared) != keep:
        raise Violation("the fit changed its inputs")
    if files(root) != disk:
        raise Violation("evaluating the objective changed files")
    ctx.label(drv)
    ctx.nontrivial(n[0] and n[1] and len({repr(x) for _, x in case["points"]}) > 1)


RES = st.sampled_from([[9, 9, 5], [11, 9, 5]])
SPECS = st.one_of(cuprate(res=RES, tz_min=0.02), ortho(res=RES), cylinder(res=RES), afband(res=RES)).flatmap(
    lambda s: st.booleans().map(lambda ms: dict(s, ms=ms)))
OP = st.tuples(st.sampled_from(["param", "param", "scale", "res", "kmax", "gamma", "params", "inplace", "models", "field", "angles", "thetas",
                                "run", "run", "run", "doping", "caller"]),
               st.integers(0, 120), q(0.9, 1.1, 0.02)).map(list)
gen = st.fixed_dictionaries(dict(
    spec=SPECS, sc=scat.models(g0=(8, 40)), B=st.sampled_from([30, 12.5, 0]), phis=st.one_of(st.lists(st.sampled_from([0, 30.0, 45]), min_size=1, max_size=2), st.lists(st.sampled_from([0, 30.0, 45, 15]), min_size=1, max_size=4, unique=True)),
    actors=st.lists(st.sampled_from(["band", "cond", "cond", "admr", "default", "admr default"]), min_size=2, max_size=3), live=st.booleans(), ran=st.sampled_from([True, True, False]), nomu=st.sampled_from([False, False, True]),
    ops=st.lists(st.tuples(st.integers(0, 2), OP).map(list), min_size=2, max_size=9)))
gen_fits = st.fixed_dictionaries(dict(
    driver=st.sampled_from(["multiT", "oneT", "series", "seriesT"]), mu=q(1.8, 2.2, 0.05),
    others=st.booleans(), free=st.lists(st.sampled_from(["gamma_0", "mu", "tz", "Bamp", "gamma_k", "energy_scale"]), min_size=1, max_size=3, unique=True),
    points=st.lists(st.tuples(st.integers(0, 1), st.lists(q(0.05, 0.95, 0.05), min_size=3, max_size=3)).map(list), min_size=2, max_size=6)))
SUBS = [Sub("interleaved", gen, interleaved, 320, 16000), Sub("fits", gen_fits, fits, 240, 8000)]
