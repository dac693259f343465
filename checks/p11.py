import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, cuprate, ortho, cylinder, ellipsoid, q, near, pi, check_fs, tensor, surface_exists, meshable)
from vlib import scat
from vlib.trans import make_cond, omega_tau, field, gamma_bounds

RULE = ("Histories of 1-12 changes of amplitude and angles (negative, beyond 180/360 degrees, with runs, copies and attempts to set "
        "the vector interleaved): B_vector against its definition after every step. Pairs of equivalent descriptions of one field: "
        "equal tensors. Rotations by 90 degrees (tetragonal), by 180 degrees and mirrors (all) of the field: tensors "
        "transformed by the same symmetry. Non-trivial: two or more of the three settings changed; a tilted field.")

_BANDS = {}


def tiny_band():
    if "tiny" not in _BANDS:
        spec = dict(model="t*((a*kx)**2 + (b*ky)**2) - mu - 2*tz*cos(c*kz)", a=4.0, b=4.0, c=8.0, scale=100,
                    params=dict(t=1.0, mu=2.0, tz=0.2), k_max=[1, 1, 1], res=[9, 9, 5], nbz=1)
        b = make_band(spec)
        b.discretize_fermi_surface()
        _BANDS["tiny"] = b
    return _BANDS["tiny"]


def vector(case, ctx):
    B, th, ph = case["start"]
    sc = dict(models=["isotropic"], par=dict(gamma_0=20.0))
    c = make_cond(tiny_band(), sc, B, th, ph, N_time=30)
    from copy import deepcopy

    def check(what):
        for name, w in (("Bamp", B), ("Btheta", th), ("Bphi", ph)):
            if getattr(c, name) != w:
                raise Violation("%s: %s reads %s instead of %s" % (what, name, getattr(c, name), w))
        v = np.asarray(c.B_vector, float)
        if v.shape != (3,):
            raise Violation("%s: the field vector has shape %s" % (what, v.shape))
        near("%s: field vector" % what, v, field(B, th, ph), 1e-9, scale=abs(B) or 1.0)
    check("construction")
    kinds = set()
    for op in case["ops"]:
        if op[0] == "B":
            c.Bamp = B = op[1]
        elif op[0] == "th":
            c.Btheta = th = op[1]
        elif op[0] == "ph":
            c.Bphi = ph = op[1]
        elif op[0] == "vec":
            c.B_vector = np.array([1.0, 2.0, 3.0])
        elif op[0] == "run":
            c.runTransport()
        elif op[0] == "copy":
            old = c
            c = deepcopy(c)
            old.Bamp, old.Btheta = -1.5, 12
        kinds.add(op[0])
        check("after %s" % op)
    if case["final"]:
        c.runTransport()
        f = make_cond(tiny_band(), sc, B, th, ph, N_time=30)
        f.runTransport()
        near("sigma after the history against a fresh object", c.sigma, f.sigma, 1e-6)
    ctx.label(*kinds)
    ctx.nontrivial(len(kinds & {"B", "th", "ph"}) >= 2)


def equivalent(case, ctx):
    spec = dict(case["spec"])
    sc = case["sc"]
    if not meshable(Ref(spec), spec, 0, 0.1):
        ctx.discard()
    band = make_band(spec)
    band.discretize_fermi_surface()
    check_fs(band)
    B, th, ph = case["B"], case["th"], case["ph"]
    w = omega_tau(band, sc, B)
    if w > 6:
        B = round(B * 6 / w, 3)
    alt = [(-B, 180 - th, ph + 180), (B, -th, ph + 180), (B, th + 360, ph), (B, th, ph - 360), (-B, th + 180, ph),
           (B, 360 - th, ph + 180)][case["alt"]]
    c = make_cond(band, sc, B, th, ph, N_time=200)
    c.runTransport()
    s1 = tensor(c.sigma, "sigma")
    c.Bamp, c.Btheta, c.Bphi = alt
    c.runTransport()
    near("sigma for (B, theta, phi) = %s and for the same field as %s" % ((B, th, ph), alt), c.sigma, s1, 1e-3)
    ctx.label(spec["fam"], "alt%d" % case["alt"])
    ctx.nontrivial(th % 90 != 0)


def symmetry(case, ctx):
    spec = dict(case["spec"])
    kind = case["kind"]
    if kind == "rot90":
        # a tetragonal band on a tetragonal mesh
        if spec["a"] != spec["b"] or spec["res"][0] != spec["res"][1]:
            ctx.discard()
        p = spec["params"]
        if p.get("tx") != p.get("ty") or spec.get("ry", 1) != 1:
            ctx.discard()
        if spec["fam"] == "ellipsoid" and (spec["ell"]["cy"] != 1 or spec["ell"]["shift"] != [0, 0, 0]):
            ctx.discard()
    elif spec["fam"] == "ellipsoid" and any(spec["ell"]["shift"]):
        ctx.discard()
    ref = Ref(spec)
    if not meshable(ref, spec, 0, 0.1):
        ctx.discard()
    gmin, gmed = ref.bandwidth_floor()
    if gmin < 0.15 * gmed:
        ctx.discard()
    sc = case["sc"]
    band = make_band(spec)
    band.discretize_fermi_surface()
    check_fs(band)
    B, th, ph = case["B"], case["th"], case["ph"]
    w = omega_tau(band, sc, B)
    if w > 6:
        B = round(B * 6 / w, 3)
    c = make_cond(band, sc, B, th, ph, N_time=300)
    c.runTransport()
    s1 = tensor(c.sigma, "sigma")
    # pseudo-vector B -> det(R) R B;  sigma -> R sigma R^T
    if kind == "rot90":
        R, new = np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), (th, ph + 90)
    elif kind == "rot180z":
        R, new = np.diag([-1, -1, 1]), (th, ph + 180)
    elif kind == "mirrorx":     # B -> (Bx, -By, -Bz)
        R, new = np.diag([-1, 1, 1]), (180 - th, -ph)
    elif kind == "mirrory":     # B -> (-Bx, By, -Bz)
        R, new = np.diag([1, -1, 1]), (180 - th, 180 - ph)
    else:                       # mirrorz: B -> (-Bx, -By, Bz)
        R, new = np.diag([1, 1, -1]), (th, ph + 180)
    c.Btheta, c.Bphi = new
    c.runTransport()
    c0 = make_cond(band, sc)
    c0.runTransport()
    d = np.sqrt(np.maximum(np.diag(c0.sigma), 1e-3 * np.max(np.diag(c0.sigma))))
    if kind == "rot90":
        d[:2] = d[:2].mean()
    lo, hi = gamma_bounds(sc)
    near("sigma after %s of the field, against the transformed tensor" % kind, np.asarray(c.sigma) / np.outer(d, d),
         R @ s1 @ R.T / np.outer(d, d), case["tol"] * (1 + 0.5 * (hi / lo - 1)), scale=1)
    ctx.label(spec["fam"], kind, "+".join(sorted(sc["models"])))
    ctx.nontrivial(th % 90 != 0)


# also weak fields, and directions very close to an axis or a plane
NEAR = st.builds(lambda x, d: x + d, st.sampled_from([0, 90, 180, -90]), st.sampled_from([1e-3, -1e-3, 0.01, -0.05, 1e-5, 1e-7]))
val = dict(B=st.one_of(q(-100, 100, 1), st.just(0), st.just(45), st.sampled_from([1e-3, -1e-3, 1e-4, 1e-6, 0.02, -0.3, 1e-9])),
           th=st.one_of(q(-400, 400, 5), st.sampled_from([0, 90, 180]), NEAR), ph=st.one_of(q(-400, 800, 5), st.sampled_from([0, 45, 90]), NEAR))
op = st.one_of(*[st.tuples(st.just(k), v) for k, v in val.items()], st.tuples(st.just("vec")), st.tuples(st.just("run")),
               st.tuples(st.just("copy"))).map(list)
gen_vec = st.fixed_dictionaries(dict(start=st.tuples(val["B"], val["th"], val["ph"]).map(list),
                                     ops=st.lists(op, min_size=1, max_size=12), final=st.booleans()))
res = st.sampled_from([[17, 17, 9], [21, 21, 9], [19, 15, 11]])
gen_eq = st.fixed_dictionaries(dict(spec=st.one_of(cuprate(res=res), ortho(odd=False, res=res), cylinder(res=res), ellipsoid(res=res)),
                                    sc=scat.models(g0=(5, 40)), B=q(1, 90, 1), th=q(0, 180, 5), ph=q(0, 360, 15), alt=st.integers(0, 5)))
res2 = st.sampled_from([[23, 23, 11], [25, 25, 13], [25, 23, 11]])
gen_sym = st.fixed_dictionaries(dict(
    spec=st.one_of(cuprate(res=res2), ortho(odd=False, res=res2), cylinder(res=res2), cuprate(res=st.just([23, 23, 11]), b_eq=True),
                   ortho(odd=False, res=st.just([23, 23, 11]), b_eq=True)), sc=scat.models(g0=(5, 40)), B=q(1, 90, 1), th=q(0, 180, 5),
    ph=q(0, 360, 15), kind=st.sampled_from(["rot90", "rot90", "rot180z", "mirrorx", "mirrory", "mirrorz"]), tol=st.just(0.012)))

SUBS = [Sub("vector", gen_vec, vector, 600, 20000), Sub("equivalent", gen_eq, equivalent, 160, 6000),
        Sub("symmetry", gen_sym, symmetry, 240, 8000)]
