import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, cuprate, ortho, cylinder, any_band, q, near, pi, check_fs, meshable)
from vlib import scat
from vlib.trans import make_cond, omega_tau

RULE = ("Random subsets and orders of the models, parameters (also non-integer powers), lattices, wave vectors up to three zones "
        "away, shapes (scalars, 1-D, integers, 2-D, kz alone a scalar) against independent formulas on the folded wave vector; histories of "
        "parameter setters and evaluations; lifetimes stored along orbits. Non-trivial: the rate is anisotropic "
        "over the wave vectors (formulas, orbits) or a setter was followed by an evaluation (setters).")

POOL = ["isotropic", "cos2phi", "cos2phi_coskz", "sin2phi", "gamma_dos_func"]


def points(case, spec, n=40):
    """wave vectors with |phi| well defined, up to three zones away, and their velocities"""
    r = np.random.RandomState(case["seed"])
    u = r.uniform(-1, 1, (3, n))
    u[:, :4] = np.round(u[:, :4], 1)
    far = np.hypot(u[0], u[1]) > 0.03
    u = u[:, far]
    per = np.array([2 * pi / spec["a"], 2 * pi / spec["b"], 2 * pi / spec["c"]])[:, None]
    G = r.randint(-case["far"], case["far"] + 1, u.shape)
    k = u * np.array([1, 1, 2])[:, None] * per / 2
    return k, k + G * per


def formulas(case, ctx):
    spec = case["spec"]
    ref = Ref(spec)
    if not meshable(ref, spec):
        ctx.discard()
    band = make_band(spec)
    band.discretize_fermi_surface()
    sc = dict(models=case["models"], par=case["par"])
    c = make_cond(band, sc, B=case["B"], th=20, warm=False)
    k0, k = points(case, spec)
    v = ref.velocity(*k0) + 0 * k0
    v += 0.01 * np.max(np.abs(v))           # no state is at rest
    dos = np.max(band.dos_k)
    want = scat.gamma(sc["models"], sc["par"], spec, k0, v, dos)
    # the rates can be sharp: compare with what a shift of 1e-7 of the wave vector does
    tol = 1e-6 * np.max(want)
    for i, kk in enumerate((k, k0, k)):
        shape = case["shape"]
        if shape == "2d":
            n = kk.shape[1] // 2 * 2
            a, vv, ww = kk[:, :n].reshape(3, 2, -1), v[:, :n].reshape(3, 2, -1), want[:n].reshape(2, -1)
        elif shape == "scalar":
            j = (case["seed"] + i) % kk.shape[1]
            a, vv, ww = kk[:, j], v[:, j], want[j]
        else:
            a, vv, ww = kk, v, want
        args = [np.array(x) for x in a] if shape != "scalar" else [float(x) for x in a]
        if shape == "kz scalar":
            args[2] = float(args[2][0])
            ww = scat.gamma(sc["models"], sc["par"], spec, (k0[0], k0[1], args[2] + 0 * k0[0]), v, dos)
        keep = [np.copy(x) for x in args]
        tau = c.tau_tot_func(*args, *vv)
        near("1 / lifetime", 1 / np.asarray(tau), ww, 0, scale=1, atol=tol)
        near("gamma_tot", c.gamma_tot, ww, 0, scale=1, atol=tol)
        if any(not np.array_equal(x, y) for x, y in zip(args, keep)):
            raise Violation("an evaluation of the lifetime changed the wave vectors given")
    # wave vectors given as integers, numbers or arrays
    r = np.random.RandomState(case["seed"])
    ki = r.randint(-2, 3, (3, 6))
    ki = ki[:, np.abs(ki[:2]).sum(0) > 0]
    if ki.shape[1]:
        vi = np.resize(v, (3, ki.shape[1]))
        wi = scat.gamma(sc["models"], sc["par"], spec, ki.astype(float), vi, dos)
        near("1 / lifetime at integer wave vectors", 1 / np.asarray(c.tau_tot_func(*ki, *vi)), wi, 0, scale=1, atol=tol)
        near("1 / lifetime at an integer wave vector", 1 / c.tau_tot_func(*[int(x) for x in ki[:, 0]], *vi[:, 0]), wi[0], 0, scale=1, atol=tol)
    # each model alone, called by its name
    parts = 0
    for m in sc["models"]:
        f = getattr(c, m)
        g = np.asarray(f(*(v if m == "gamma_dos_func" else k)))
        near("rate of one model", g, scat.gamma([m], sc["par"], spec, k0, v, dos), 0, scale=1, atol=tol)
        parts = parts + g
    near("sum of the models", parts, want, 0, scale=1, atol=tol)
    # on the Fermi surface
    kf, vf = band.kf.astype(float), band.vf
    if np.min(np.hypot(kf[0] * spec["a"], kf[1] * spec["b"])) > 0.05:
        on = scat.gamma(sc["models"], sc["par"], spec, kf, vf, dos)
        near("1 / longest lifetime", 1 / c.tau_total_max(), np.min(on), 0, scale=1, atol=1e-4 * np.max(on))
        near("1 / shortest lifetime", 1 / c.tau_total_min(), np.max(on), 0, scale=1, atol=1e-4 * np.max(on))
    ctx.label("+".join(sorted(sc["models"])), case["shape"], "far" if case["far"] else "first zone")
    ctx.nontrivial(np.ptp(want) > 0.01 * np.max(want))


def orbits(case, ctx):
    spec = case["spec"]
    ref = Ref(spec)
    if not meshable(ref, spec):
        ctx.discard()
    band = make_band(spec)
    band.discretize_fermi_surface()
    check_fs(band)
    sc = case["sc"]
    B = case["B"]
    if omega_tau(band, sc, B) > 6:
        B = round(6 * B / omega_tau(band, sc, B), 3)
    c = make_cond(band, sc, B, case["th"], case["ph"], N_time=case["N"])
    c.runTransport()
    k, v = c.kft, c.vft
    ok = np.hypot(scat.fold(k[0] * spec["a"], 2 * pi), scat.fold(k[1] * spec["b"], 2 * pi)) > 0.05
    want = scat.gamma(sc["models"], sc["par"], spec, k, v, np.max(band.dos_k))
    # float32 noise of the wave vectors at the start
    near("rates along the orbits", np.where(ok, 1 / c.tau_tot, 0), np.where(ok, want, 0), 1e-5)
    # the probability of survival: exp(-int gamma dt), to the accuracy of the time step
    t = c.time_array
    dt = t[1] - t[0]
    g = 1 / c.tau_tot
    hi = np.concatenate([np.zeros(g.shape[:1] + (1,)), np.cumsum(np.maximum(g[:, 1:], g[:, :-1]) * dt, axis=1)], axis=1)
    lo = np.concatenate([np.zeros(g.shape[:1] + (1,)), np.cumsum(np.minimum(g[:, 1:], g[:, :-1]) * dt, axis=1)], axis=1)
    s = c.t_o_tau
    if s.shape != g.shape or np.any(s > hi * (1 + 1e-6) + 1e-9) or np.any(s < lo * (1 - 1e-6) - 1e-9):
        raise Violation("the time over lifetime is not the integral of the scattering rate along the orbit")
    kf, vf = band.kf.astype(float), band.vf
    if np.all(np.hypot(scat.fold(kf[0] * spec["a"], 2 * pi), scat.fold(kf[1] * spec["b"], 2 * pi)) > 0.05):
        on = scat.gamma(sc["models"], sc["par"], spec, kf, vf, np.max(band.dos_k))
        near("gamma_tot_max", c.gamma_tot_max, np.max(on), 1e-4)
        near("gamma_tot_min", c.gamma_tot_min, np.min(on), 1e-4)
        near("range of times, in units of the longest lifetime", c.time_max * np.min(on), 8, 1.0, scale=100)
        if c.time_max * np.min(on) < 5:
            raise Violation("the time range does not cover the longest lifetime")
    out = np.mean((np.abs(k[0] * spec["a"]) > pi) | (np.abs(k[1] * spec["b"]) > pi))
    ctx.label("+".join(sorted(sc["models"])), "leaves the zone" if out > 0 else "inside")
    ctx.nontrivial(np.ptp(want) > 0.01 * np.max(want))


FULL = dict(gamma_0=8.0, gamma_k=6.0, power=4.0, power_z=2.0, gamma_k_sin=5.0, power_sin=2.0, gamma_dos_max=4.0)


def setters(case, ctx):
    spec = case["spec"]
    ref = Ref(spec)
    if not meshable(ref, spec):
        ctx.discard()
    band = make_band(spec)
    band.discretize_fermi_surface()
    par, models = dict(FULL), list(case["models"])
    given, last = dict(FULL), dict(FULL)
    c = make_cond(band, dict(models=models, par=given), B=10, warm=False)
    dos = np.max(band.dos_k)
    changed = False
    for n, op in enumerate(case["ops"]):
        if op[0] == "attr":
            name = sorted(FULL)[op[1]]
            par[name] = max(1.0, op[2]) if name.startswith("power") else op[2]
            setattr(c, name, par[name])
            changed = True
        elif op[0] == "all":
            par = {k: max(1.0, round(v * op[1], 3)) for k, v in par.items()}
            last = dict(par)
            c.scattering_params = dict(par)
            near("scattering_params read back", [c.scattering_params[k] for k in sorted(par)], [par[k] for k in sorted(par)], 1e-12)
            changed = True
        elif op[0] == "again":                  # the last dictionary given, once more: it counts, not what was set since
            par.update(last)
            c.scattering_params = dict(last)
            changed = True
        elif op[0] == "some":
            new = {k: max(1.0, round(par[k] * op[1], 3)) for k in sorted(par)[op[2]:op[2] + 3]}
            par.update(new)
            last = dict(new)
            c.scattering_params = dict(new)     # parameters not given keep their values
            changed = True
        elif op[0] == "models":
            models = list(op[1])
            c.scattering_models = list(models)
            changed = True
        elif op[0] == "run":
            if "isotropic" in models or "gamma_dos_func" in models:     # otherwise the lifetime is infinite somewhere
                c.runTransport()
        else:
            k0, k = points(dict(seed=op[1], far=op[2]), spec, 12)
            v = ref.velocity(*k0) + 0 * k0
            v += 0.01 * np.max(np.abs(v))
            want = scat.gamma(models, par, spec, k0, v, dos)
            try:
                near("rates", 1 / c.tau_tot_func(*k, *v), want, 1e-6)
            except Violation as exc:
                raise Violation("after %s: %s" % (case["ops"][:n], exc))
            for m in models:
                near("attribute", getattr(c, scat.NAMES[m][0]), par[scat.NAMES[m][0]], 1e-12)
            if changed:
                ctx.nontrivial()
        ctx.label(op[0])
    if given != FULL:
        raise Violation("the parameters given at construction were changed")


def own_class():
    """models of the user, one of each kind of arguments, as the package lets him add them"""
    from cuprates_transport.conductivity import Conductivity
    from cuprates_transport.scattering import scattering_method

    class Own(Conductivity):
        @scattering_method
        def hot_kz(self, kx, ky, kz):
            vx = np.cos(kx * self.bandObject.a)         # a name of the model, not the velocity
            return self.gamma_hot * (1.5 + vx * np.cos(ky * self.bandObject.b) * np.cos(kz * self.bandObject.c))

        @scattering_method
        def mean_free_path(self, vx, vy, vz):
            kx = np.sqrt(vx ** 2 + vy ** 2 + vz ** 2)
            return self.rate_v * kx / self.speed

        @scattering_method
        def inelastic(self, epsilon):
            vx = np.abs(epsilon)
            return self.rate_e * vx

    return Own


def own(case, ctx):
    """models of the user, alone and mixed with those of the package, in any order"""
    spec = case["spec"]
    ref = Ref(spec)
    if not meshable(ref, spec):
        ctx.discard()
    band = make_band(spec)
    band.discretize_fermi_surface()
    dos = np.max(band.dos_k)
    mine = dict(gamma_hot=case["rates"][0], rate_v=case["rates"][1], speed=1e5, rate_e=case["rates"][2])
    c = own_class()(band, Bamp=case["B"], Btheta=20, T=0, N_time=60, scattering_models=list(case["models"]), scattering_params=dict(case["par"], **mine))
    k0, k = points(case, spec)
    v = ref.velocity(*k0) + 0 * k0
    v += 0.01 * np.max(np.abs(v))
    e = case["e"]

    def rate(models, k, v, e):
        out = scat.gamma([m for m in models if m in POOL], case["par"], spec, k, v, dos)
        if "hot_kz" in models:
            out = out + mine["gamma_hot"] * (1.5 + np.cos(k[0] * spec["a"]) * np.cos(k[1] * spec["b"]) * np.cos(k[2] * spec["c"]))
        if "mean_free_path" in models:
            out = out + mine["rate_v"] * np.sqrt((np.asarray(v) ** 2).sum(0)) / mine["speed"]
        if "inelastic" in models:
            out = out + mine["rate_e"] * abs(e)
        return out
    for models in (case["models"], case["models"][::-1], case["models"]):
        c.scattering_models = list(models)
        want = rate(models, k0, v, e)
        if np.min(want) <= 0:
            ctx.discard()
        got = c.tau_tot_func(*[np.array(x) for x in k], *v, e) if case["how"] else c.tau_tot_func(*[np.array(x) for x in k], *v, epsilon=e)
        near("1 / lifetime with models %s" % models, 1 / np.asarray(got), want, 0, scale=1, atol=1e-6 * np.max(want))
        if np.min(rate(models, k0, v, 0)) > 0:
            near("1 / lifetime at the Fermi level", 1 / np.asarray(c.tau_tot_func(*k, *v)), rate(models, k0, v, 0), 0, scale=1, atol=1e-6 * np.max(want))
    kf, vf = band.kf.astype(float), band.vf
    if np.min(np.hypot(kf[0] * spec["a"], kf[1] * spec["b"])) > 0.05:
        on = rate(case["models"], kf, vf, 0)
        if np.min(on) > 0.01 * np.max(on):
            near("1 / longest lifetime", 1 / c.tau_total_max(), np.min(on), 0, scale=1, atol=1e-4 * np.max(on))
            near("1 / shortest lifetime", 1 / c.tau_total_min(), np.max(on), 0, scale=1, atol=1e-4 * np.max(on))
    ctx.label("+".join(sorted(set(case["models"]) - set(POOL))), "with the package's" if set(case["models"]) & set(POOL) else "alone")
    ctx.nontrivial(len(case["models"]) > 1)


MODELS = st.lists(st.sampled_from(POOL), min_size=1, max_size=4, unique=True)
PW = st.sampled_from([1, 2, 2.5, 3, 4, 6, 12, 0.5])
PAR = st.fixed_dictionaries(dict(gamma_0=q(0.5, 60, 0.5), gamma_k=q(0, 80, 0.5), power=PW, power_z=PW, gamma_k_sin=q(0.5, 50, 0.5),
                                 power_sin=PW, gamma_dos_max=q(0.5, 60, 0.5)))
RES = st.sampled_from([[9, 9, 5], [11, 11, 5]])
BANDS = st.one_of(cuprate(res=RES), ortho(res=RES), cylinder(res=RES))
gen_f = st.fixed_dictionaries(dict(spec=BANDS, models=MODELS, par=PAR, seed=st.integers(0, 10 ** 6), far=st.integers(0, 3),
                                   shape=st.sampled_from(["1d", "2d", "scalar", "kz scalar"]), B=st.sampled_from([0, 10])))
gen_o = st.fixed_dictionaries(dict(spec=st.one_of(cuprate(res=RES, mu_hi=-0.4), BANDS), sc=scat.models(g0=(2, 30), aniso=2),
                                   B=q(2, 60, 2), th=q(0, 180, 10), ph=q(0, 360, 15), N=st.sampled_from([80, 200])))
op = st.one_of(st.tuples(st.just("attr"), st.integers(0, 6), q(0.5, 20, 0.5)), st.tuples(st.just("all"), st.sampled_from([0.5, 1.5, 2])),
               st.tuples(st.just("some"), st.sampled_from([0.5, 2]), st.integers(0, 4)),
               st.tuples(st.just("again")), st.tuples(st.just("models"), MODELS), st.tuples(st.just("run")),
               st.tuples(st.just("eval"), st.integers(0, 99), st.integers(0, 2)),
               st.tuples(st.just("eval"), st.integers(0, 99), st.integers(0, 2))).map(list)
gen_s = st.fixed_dictionaries(dict(spec=BANDS, models=MODELS, ops=st.lists(op, min_size=2, max_size=12)))

MINE = st.lists(st.sampled_from(["hot_kz", "mean_free_path", "inelastic"]), min_size=1, max_size=3, unique=True)
gen_own = st.fixed_dictionaries(dict(spec=BANDS, models=st.tuples(MINE, st.lists(st.sampled_from(POOL), max_size=2, unique=True)).flatmap(
    lambda t: st.permutations(t[0] + t[1])).map(list), par=PAR, seed=st.integers(0, 10 ** 6), far=st.integers(0, 2), B=st.sampled_from([0, 10]),
    rates=st.lists(q(0.5, 30, 0.5), min_size=3, max_size=3), e=st.one_of(q(-20, 20, 0.5), st.just(0)), how=st.booleans()))

SUBS = [Sub("formulas", gen_f, formulas, 1200, 40000), Sub("orbits", gen_o, orbits, 320, 12000), Sub("setters", gen_s, setters, 800, 30000), Sub("own", gen_own, own, 600, 20000)]
