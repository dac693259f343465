import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, cuprate, ortho, cylinder, ellipsoid, slice_band, q, pi, surface_exists, clamped_class, MEV)
from vlib.trans import make_cond, omega_tau
from checks.p14 import KB

RULE = ("Histories of 3-14 operations on one transport object: field amplitude and angles, temperature, number of energies and cut, "
        "number of times, tolerances, scattering parameters one by one or all at once, models, parameters / energy scale / "
        "resolution of its band followed by a recomputation, evaluations of the lifetime elsewhere, runs. After every run all "
        "results are compared with those of a fresh object built with the current settings. Non-trivial: at least "
        "two runs with a change that matters in between.")

ALL = dict(gamma_0=10.0, gamma_k=6.0, power=4, power_z=2, gamma_k_sin=5.0, power_sin=2, gamma_dos_max=4.0)
MODELS = [["isotropic"], ["isotropic", "cos2phi"], ["cos2phi_coskz", "isotropic"], ["isotropic", "sin2phi"],
          ["gamma_dos_func", "isotropic"], ["sin2phi", "isotropic", "gamma_dos_func"]]
RESULTS = ("sigma", "alpha", "beta", "gamma_tot_min", "gamma_tot_max", "time_max", "time_array", "kft", "vft", "t_o_tau")


class World:
    def __init__(self, case):
        self.spec = dict(case["spec"], params=dict(case["spec"]["params"]))
        self.set = dict(B=case["B"], th=case["th"], ph=case["ph"], T=case.get("T", 0), N_time=60, N_epsilon=case.get("N", 3), cut=0.05, rtol=1e-4, atol=1e-4)
        self.models, self.par = list(MODELS[case["models"]]), dict(ALL)
        self.c = self.build()
        self.last = None

    def build(self, ):
        band = make_band(self.spec, clamped_class((21, 21, 7)), warm=0)
        band.res_xy_rough = 101
        band.runBandStructure()
        s = self.set
        return make_cond(band, dict(models=self.models, par=self.par), s["B"], s["th"], s["ph"], s["T"], N_time=s["N_time"],
                         N_epsilon=s["N_epsilon"], dfdE_cut_percent=s["cut"], rtol=s["rtol"], atol=s["atol"], warm=False)

    def allowed(self, spec=None, **new):
        """the surface exists at all the energies of a run with these settings"""
        s = dict(self.set, **new)
        spec = spec or self.spec
        w = 2 * KB * s["T"] * np.arccosh(1 / np.sqrt(s["cut"])) if s["T"] else 0.0
        ref = Ref(spec)
        res = [41, 41, spec["res"][2]] if spec.get("ms") else spec["res"]
        return all(surface_exists(ref, x, res, 0.06 * spec["scale"]) for x in ((-w, 0.0, w) if w else (0.0,)))

    def run(self, after):
        self.c.runTransport()
        f = self.build()
        f.runTransport()
        for name in RESULTS if not self.set["T"] else RESULTS[:-3]:     # the orbits at T > 0 are those of several energies
            v, w = np.asarray(getattr(self.c, name), float), np.asarray(getattr(f, name), float)
            if v.shape != w.shape or not np.allclose(v, w, rtol=1e-6, atol=1e-9 * max(np.max(np.abs(w)), 1e-300)):
                raise Violation("%s of a run after %s is not that of a fresh object with the current settings" % (name, after))
        if self.set["T"]:
            v, w = np.asarray(self.c.epsilon_array, float), np.asarray(f.epsilon_array, float)
            if v.shape != w.shape or not np.allclose(v, w, rtol=1e-9, atol=1e-9 * np.max(np.abs(w))):
                raise Violation("energy grid of a run after %s is not that of a fresh object" % after)
        for name in ("kf", "vf", "dkf", "dos_k", "n"):
            v, w = np.asarray(getattr(self.c.bandObject, name), float), np.asarray(getattr(f.bandObject, name), float)
            if v.shape != w.shape or not np.allclose(v, w, rtol=1e-6, atol=1e-9 * max(np.max(np.abs(w)), 1e-300)):
                raise Violation("%s of the band after %s and a run is not that of a fresh object" % (name, after))


def apply(w, op):
    c, kind = w.c, op[0]
    if kind in ("Bamp", "Btheta", "Bphi"):
        key = dict(Bamp="B", Btheta="th", Bphi="ph")[kind]
        if kind == "Bamp" and op[1] and omega_tau(c.bandObject, dict(par=dict(gamma_0=min(w.par["gamma_0"], 5))), op[1]) > 10:
            return False
        w.set[key] = op[1]
        setattr(c, kind, op[1])
    elif kind == "nudge":       # small steps, as those of a fit
        name, d = op[1], op[2]
        if name in ("B", "th", "ph", "T"):
            if not w.set[name] and name in ("B", "T"):
                return False
            w.set[name] = round(w.set[name] + d, 5)
            setattr(c, dict(B="Bamp", th="Btheta", ph="Bphi", T="T")[name], w.set[name])
        elif name == "rates":
            w.par = {k: (v * (1 + d) if not k.startswith("power") else v) for k, v in w.par.items()}
            c.scattering_params = dict(w.par)
        else:
            w.par["gamma_0"] *= 1 + d
            c.gamma_0 = w.par["gamma_0"]
    elif kind == "T":
        if not w.allowed(T=op[1]):
            return False
        w.set["T"] = op[1]
        c.T = op[1]
    elif kind == "cut":
        if not w.allowed(cut=op[1]):
            return False
        w.set["cut"] = op[1]
        c.dfdE_cut_percent = op[1]
    elif kind in ("N_epsilon", "N_time", "rtol", "atol"):
        w.set[kind] = op[1]
        setattr(c, kind, op[1])
    elif kind == "one":
        name = sorted(ALL)[op[1] % len(ALL)]
        v = round(ALL[name] * op[2], 4) if not name.startswith("power") else ALL[name] + 2
        w.par[name] = v
        setattr(c, name, v)
        c.scattering_params[name] = v           # what a caller who changes one parameter keeps in step
    elif kind == "attr":
        name = sorted(ALL)[op[1] % len(ALL)]
        v = round(ALL[name] * op[2], 4) if not name.startswith("power") else ALL[name] + 4
        w.par[name] = v
        setattr(c, name, v)
    elif kind == "all":
        new = {k: (round(v * op[1], 4) if not k.startswith("power") else v) for k, v in w.par.items()}
        w.par = new
        c.scattering_params = new
        w.par = dict(new)
        for k in new:           # the caller goes on using the dictionary given
            new[k] = 3.21
    elif kind == "models":
        w.models = list(MODELS[op[1]])
        c.scattering_models = list(MODELS[op[1]])
    elif kind == "share":       # another transport object takes over the settings, then changes
        o = w.build()
        o.scattering_params = c.scattering_params
        o.scattering_models = list(c.scattering_models)
        o.scattering_params["gamma_0"] = 1.23
        o.gamma_k = 3.21
        o.Bamp, o.T = 3.3, 0
        o.bandObject["mu"] = 0.1
        return False
    elif kind in ("band", "scale", "res"):
        spec = dict(w.spec, params=dict(w.spec["params"]))
        b = c.bandObject
        if kind == "band":
            name = sorted(spec["params"])[op[1] % len(spec["params"])]
            spec["params"][name] = round(spec["params"][name] * op[2], 5)
            if not w.allowed(spec):
                return False
            b[name] = spec["params"][name]
        elif kind == "scale":
            spec["scale"] = round(spec["scale"] * op[1], 3)
            if not w.allowed(spec):
                return False
            b.energy_scale = spec["scale"]
        else:
            spec["res"] = list(op[1])
            if not w.allowed(spec):
                return False
            b.resolution = list(op[1])
        w.spec = spec
        b.runBandStructure()
    elif kind == "probe":
        b = c.bandObject
        k = b.kf[:, ::3].astype(float) + 0.3
        v = b.velocity_func(*k)
        c.tau_tot_func(k[0], k[1], k[2], *[np.zeros_like(k[0]) + x for x in v])
        return False
    elif kind == "omegac":
        if w.set["B"] and c.bandObject.march_square:
            c.omegac_tau_func()
        return False
    elif kind == "doping":
        c.bandObject.doping(*[15, 15, 5])
        c.bandObject.runBandStructure()
        return False
    return True


def history(case, ctx):
    spec = case["spec"]
    ref = Ref(spec)
    if not surface_exists(ref, 0.0, [41, 41, spec["res"][2]] if spec.get("ms") else spec["res"], 0.06 * spec["scale"]):
        ctx.discard()
    w = World(case)
    if not w.allowed():
        ctx.discard()
    if case["B"] and omega_tau(w.c.bandObject, dict(par=dict(gamma_0=5)), case["B"]) > 10:
        ctx.discard()
    done, changes, runs = [], 0, 0
    for op in case["ops"] + [["run"]]:
        if op[0] == "run":
            w.run(str(done[-6:]))
            runs += 1
            if runs > 1 and changes:
                ctx.nontrivial()
            changes = 0
        elif apply(w, op):
            changes += 1
            ctx.label(op[0])
        done.append(op)


RES = st.sampled_from([[9, 9, 3], [11, 9, 3], [9, 9, 5], [11, 11, 5]])
op = st.one_of(
    st.tuples(st.just("Bamp"), st.sampled_from([0, 5, 20, 45, -30])),
    st.tuples(st.just("Btheta"), q(-30, 180, 15)), st.tuples(st.just("Bphi"), q(-45, 360, 15)),
    st.tuples(st.just("T"), st.sampled_from([0, 5, 10, 20, 30, 60])), st.tuples(st.just("cut"), st.sampled_from([0.01, 0.05, 0.3])),
    st.tuples(st.just("N_epsilon"), st.sampled_from([2, 3, 5, 9, 14])), st.tuples(st.just("N_time"), st.sampled_from([40, 60, 101])),
    st.tuples(st.sampled_from(["rtol", "atol"]), st.sampled_from([1e-4, 1e-6, 1e-8])),
    st.tuples(st.sampled_from(["one", "attr"]), st.integers(0, 6), st.sampled_from([0.5, 1.5, 3.0])),
    st.tuples(st.just("nudge"), st.sampled_from(["B", "th", "ph", "T", "rates", "gamma_0"]), st.sampled_from([0.3, 0.03, 0.004, -0.0005])),
    st.tuples(st.just("all"), st.sampled_from([0.5, 2.0])), st.tuples(st.just("models"), st.integers(0, 5)),
    st.tuples(st.just("band"), st.integers(0, 4), st.sampled_from([0.95, 1.05])),
    st.tuples(st.just("scale"), st.sampled_from([0.8, 1.25])), st.tuples(st.just("res"), RES),
    st.tuples(st.just("probe")), st.tuples(st.just("omegac")), st.tuples(st.just("share")), st.tuples(st.just("doping"))).map(list)
run = st.just(["run"])
ops = st.lists(st.one_of(op, op, run), min_size=2, max_size=12)
gen = st.fixed_dictionaries(dict(
    spec=st.one_of(cuprate(res=RES), ortho(res=RES), cylinder(res=RES), slice_band(res=RES), ellipsoid(res=st.just([13, 13, 13]))),
    B=st.sampled_from([0, 10, 45]), th=q(0, 90, 15), ph=q(0, 90, 15), models=st.integers(0, 5), N=st.sampled_from([3, 3, 2, 9]), T=st.sampled_from([0, 0, 20, 40]),
    ops=st.tuples(run, ops).map(lambda t: [t[0]] + t[1])))

SUBS = [Sub("history", gen, history, 1600, 40000)]
