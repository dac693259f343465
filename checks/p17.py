import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, cuprate, ortho, cylinder, slice_band, q, near, pi, meshable, surface_exists, tensor)
from vlib import scat
from vlib.trans import make_cond, omega_tau

RULE = ("Sweeps over 1-4 azimuths and 1-6 polar angles (any range, step, normalisation angle) of 1-3 bands with their own scattering "
        "rates, T = 0 and T > 0, each stored value against the tensors of fresh objects at these angles, summed and inverted by "
        "cofactors; then histories of repeated sweeps, permuted angles and bands, changed fields and rates. Non-trivial: "
        "the resistivity varies by more than 0.1 % over the sweep.")


def build(case):
    conds = []
    for b in case["bands"]:
        band = make_band(b["spec"])
        band.res_xy_rough = 101
        band.runBandStructure()
        conds.append((band, b["sc"]))
    return conds


def rho_zz(conds, case, B, T, phi, theta, kw):
    s = np.zeros((3, 3))
    for band, sc in conds:
        c = make_cond(band, sc, B, float(theta), float(phi), T, **kw)
        c.runTransport()
        s = s + tensor(c.sigma, "sigma")
    det = (s[0, 0] * (s[1, 1] * s[2, 2] - s[1, 2] * s[2, 1]) - s[0, 1] * (s[1, 0] * s[2, 2] - s[1, 2] * s[2, 0])
           + s[0, 2] * (s[1, 0] * s[2, 1] - s[1, 1] * s[2, 0]))
    return (s[0, 0] * s[1, 1] - s[0, 1] * s[1, 0]) / det


def interp(x, xs, ys):
    xs, ys = zip(*sorted(zip(xs, ys)))      # the angles may come in any order
    if x <= xs[0]:
        return ys[0]
    for x0, x1, y0, y1 in zip(xs, xs[1:], ys, ys[1:]):
        if x <= x1:
            return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
    return ys[-1]


def sweep(case, ctx):
    from cuprates_transport.admr import ADMR
    T, B = case["T"], case["B"]
    for b in case["bands"]:
        ref = Ref(b["spec"])
        res = [41, 41, b["spec"]["res"][2]] if b["spec"].get("ms") else b["spec"]["res"]
        w = 2 * 0.0862 * T * np.arccosh(1 / np.sqrt(0.1)) if T else 0
        if not all(surface_exists(ref, x, res, 0.06 * b["spec"]["scale"]) for x in {-w, 0.0, w}) or not b["spec"]["params"].get("tz", 1):
            ctx.discard()
    kw = dict(N_time=80, N_epsilon=3, dfdE_cut_percent=0.1)
    conds = build(case)
    for band, sc in conds:
        wt = omega_tau(band, sc, B)
        if wt > 6:
            B = round(6 * B / wt, 3)
    s0 = 0
    for band, sc in conds:
        c = make_cond(band, sc, 0)
        c.runTransport()
        s0 = s0 + c.sigma
    if np.linalg.cond(s0) > 1e5:
        ctx.discard()           # two-dimensional: the inverse is dominated by rounding
    objs = [make_cond(band, sc, B, 7, 3, T, **kw) for band, sc in conds]
    th = dict(Btheta_min=case["tmin"], Btheta_max=case["tmin"] + case["range"], Btheta_step=case["step"])
    norm = round(case["tmin"] + case["norm"] * case["range"], 2)
    A = ADMR(list(objs), Bphi_array=list(case["phis"]), Btheta_norm=norm, show_progress=case["progress"], **th)
    ta = np.asarray(A.Btheta_array, float)
    near("first polar angle", ta[0], case["tmin"], 1e-9, scale=1)
    if ta.size > 1:
        near("steps of the polar angle", np.diff(ta), np.full(ta.size - 1, case["step"]), 1e-9, scale=1)
    top = case["tmin"] + case["range"]
    if not top - 1e-6 <= ta[-1] < top + case["step"] + 1e-6:
        raise Violation("polar angles %s do not span the range up to %s in steps of %s" % (ta.tolist(), top, case["step"]))
    if case["down"]:                            # a sweep from the top down
        th = dict(Btheta_min=ta[-1], Btheta_max=ta[0], Btheta_step=-case["step"])
        A = ADMR(list(objs), Bphi_array=list(case["phis"]), Btheta_norm=norm, show_progress=case["progress"], **th)
        ta0, ta = ta, np.asarray(A.Btheta_array, float)
        near("angles of the sweep from the top down", ta[:ta0.size], ta0[::-1], 1e-9, scale=1)
        if ta.size > ta0.size + 1:
            raise Violation("sweep from %s down to %s: %s" % (ta0[-1], ta0[0], ta.tolist()))
    near("azimuths", A.Bphi_array, case["phis"], 1e-12, scale=1)
    phis = list(case["phis"])
    cache = {}

    def rho(phi, theta):
        k = (round(float(phi), 9), round(float(theta), 9))
        if k not in cache:
            cache[k] = rho_zz(conds, case, B, T, phi, theta, kw)
        return cache[k]

    def check(what):
        want = np.array([[rho(p, t) for t in ta] for p in phis])
        near("rhozz %s" % what, A.rhozz_array, want, 0, scale=1, atol=1e-6 * np.abs(want).max())
        nz = np.array([w / interp(A.Btheta_norm, ta, w) for w in want])
        near("rzz %s" % what, A.rzz_array, nz, 0, scale=1, atol=1e-6 * np.abs(nz).max())
        n = sum(o.bandObject.n for o in objs)
        near("total filling %s" % what, A.total_filling, n, 1e-9, scale=1)
        near("total doping %s" % what, A.total_hole_doping, 1 - n, 1e-9, scale=1)
        return want
    A.runADMR()
    want = check("of the first sweep")
    for op in case["ops"]:
        if case["back"]:                        # each sweep starts where the last one ended
            ta, phis = ta[::-1], phis[::-1]
            A.Btheta_array, A.Bphi_array = np.array(ta), np.array(phis)
        if op[0] == "rerun":
            pass
        elif op[0] == "field":
            for o in objs:
                o.Bamp = round(o.Bamp * op[1], 4)
            B = objs[0].Bamp
            cache.clear()
        elif op[0] == "gamma":
            j = op[1] % len(objs)
            conds[j] = (conds[j][0], dict(conds[j][1], par=dict(conds[j][1]["par"], gamma_0=round(conds[j][1]["par"]["gamma_0"] * op[2], 3))))
            objs[j].gamma_0 = conds[j][1]["par"]["gamma_0"]
            cache.clear()
        elif op[0] == "angles":
            for o in objs:
                o.Btheta, o.Bphi = op[1], op[2]
        elif op[0] == "norm":
            A.Btheta_norm = round(case["tmin"] + op[1] * case["range"], 2)
        elif op[0] == "phis":
            phis = phis[::-1] if op[1] else phis[1:] + phis[:1]
            A.Bphi_array = np.array(phis)
        elif op[0] == "thetas":
            ta = ta[::-1] if op[1] else np.concatenate([ta[1:], ta[:1]])
            A.Btheta_array = np.array(ta)
        elif op[0] == "bands":
            objs.reverse()
            conds.reverse()
            A = ADMR(list(objs), Bphi_array=list(phis), Btheta_norm=A.Btheta_norm, show_progress=False, **th)
            A.Btheta_array = np.array(ta)
        elif op[0] == "single":
            t = float(ta[op[1] % ta.size])
            p = phis[op[2] % len(phis)]
            A1 = ADMR(list(objs), Bphi_array=[p], Btheta_min=t, Btheta_max=t, Btheta_step=1, Btheta_norm=t, show_progress=False)
            A1.Btheta_array = np.array([t])
            A1.runADMR()
            near("rhozz of a sweep of one angle", A1.rhozz_array, [[rho(p, t)]], 1e-6)
            near("rzz of a sweep of one angle", A1.rzz_array, [[1.0]], 1e-9)
            continue
        A.runADMR()
        want = check("after %s" % op[0])
        ctx.label(op[0])
    ctx.label("%d bands" % len(objs), "T" if T else "T0", "norm out" if not 0 <= case["norm"] <= 1 else "norm in")
    ctx.nontrivial(np.ptp(want) > 1e-3 * np.max(np.abs(want)))


RES = st.sampled_from([[9, 9, 3], [11, 9, 3], [9, 9, 5]])
BAND = st.one_of(cuprate(res=RES, tz_min=0.03), ortho(res=RES), cylinder(res=RES), slice_band(res=RES))
op = st.one_of(st.tuples(st.just("rerun")), st.tuples(st.just("field"), st.sampled_from([0.5, 1.5, -1.0])),
               st.tuples(st.just("gamma"), st.integers(0, 2), st.sampled_from([1.5, 2.0])),
               st.tuples(st.just("angles"), q(0, 90, 15), q(0, 90, 15)), st.tuples(st.just("norm"), st.sampled_from([0, 0.3, 1.0])),
               st.tuples(st.just("phis"), st.booleans()), st.tuples(st.just("thetas"), st.booleans()), st.tuples(st.just("bands")),
               st.tuples(st.just("single"), st.integers(0, 5), st.integers(0, 3))).map(list)
gen = st.fixed_dictionaries(dict(
    bands=st.lists(st.fixed_dictionaries(dict(spec=BAND, sc=scat.models(g0=(5, 40)))), min_size=1, max_size=3),
    B=st.sampled_from([45, 30, 10, 60, 45, 30, 0]), T=st.sampled_from([0, 0, 0, 0, 0, 10]), tmin=st.sampled_from([0, 0, 0, -20, 15, 2.5]),
    range=st.sampled_from([20, 0, 20, 40, 90, 33]), step=st.sampled_from([10, 20, 15, 12.5, 30]), norm=st.sampled_from([0, 0, 0.5, 0.37, 1, 1.5, -0.5]),
    phis=st.lists(q(-45, 180, 15), min_size=1, max_size=6, unique=True), progress=st.booleans(), back=st.sampled_from([False, True]), down=st.sampled_from([False, False, False, True]),
    ops=st.lists(op, max_size=3)))

SUBS = [Sub("sweep", gen, sweep, 160, 6000)]
