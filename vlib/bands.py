"""Zoo of bands (JSON specs), builders for the objects under test, and independent references.

A spec: dict(model, a, b, c, scale, params, k_max (multiples of pi), res, nbz, ms, parallel)."""
import json
import math
import re
import zlib

import numpy as np
from scipy.constants import e as QE, hbar, electron_mass, k as KB

from .core import Violation
from .hyp import st

pi = math.pi
MEV = QE * 1e-3
ANG = 1e-10
PS = 1e-12

CUPRATE = ("- mu - 2*t*(cos(a*kx) + cos(b*ky)) - 4*tp*cos(a*kx)*cos(b*ky)"
           "- 2*tpp*(cos(2*a*kx) + cos(2*b*ky))"
           "- 2*tz*(cos(a*kx) - cos(b*ky))**2*cos(a*kx/2)*cos(b*ky/2)*cos(c*kz/2)")
ORTHO = "- mu - 2*tx*cos(a*kx) - 2*ty*cos(b*ky) - 2*tz*cos(c*kz)"
CYL = "t*((a*kx)**2 + %s*(b*ky)**2) - mu - 2*tz*cos(c*kz)"
AF = ("- mu - 4*tp*cos(a*kx)*cos(b*ky) - 2*tpp*(cos(2*a*kx) + cos(2*b*ky))"
      " + sg*sqrt((2*t*(cos(a*kx)+cos(b*ky)))**2 + M**2) - 2*tz*cos(c*kz)")


def q(lo, hi, step):
    """quantised floats (multiples of step): short JSON, good shrinking"""
    d = max(0, -int(math.floor(math.log10(step))) + 2)
    return st.integers(int(round(lo / step)), int(round(hi / step))).map(lambda i: round(i * step, d))


# energy scales in meV, heavy and light bands included
SCALE = st.one_of(q(40, 300, 5), q(40, 300, 5), q(40, 300, 5), q(40, 300, 5), st.sampled_from([1.5, 12, 1500]))


# --------------------------------------------------------------------------------------
# reference: the formula evaluated by Python itself
_NS = dict(cos=np.cos, sin=np.sin, sqrt=np.sqrt, exp=np.exp, pi=pi, tanh=np.tanh, cosh=np.cosh, sinh=np.sinh)
_CODE = {}


class Ref:
    """Independent evaluation of the spec (no sympy, no code of the repository)."""

    def __init__(self, spec, params=None, scale=None):
        self.spec = spec
        self.a, self.b, self.c = spec["a"], spec["b"], spec["c"]
        p = params if params is not None else spec["params"]
        s = scale if scale is not None else spec["scale"]
        self.vals = {k: v * s for k, v in p.items()}
        m = spec["model"]
        if m not in _CODE:
            _CODE[m] = compile(m.strip(), "<model>", "eval")
        self.code = _CODE[m]
        self.kmax = np.array(spec.get("k_max", [1, 1, 2])) * pi / np.array([self.a, self.b, self.c])

    def energy(self, kx, ky, kz):
        ns = dict(_NS, kx=kx, ky=ky, kz=kz, a=self.a, b=self.b, c=self.c, **self.vals)
        r = eval(self.code, {"__builtins__": {}}, ns)
        return r + np.zeros(np.broadcast(kx, ky, kz).shape)

    def grad(self, kx, ky, kz):
        """exact gradient in meV Angstrom, by complex step"""
        h = 1e-30
        return np.stack([np.imag(self.energy(kx + (1j * h if i == 0 else 0),
                                             ky + (1j * h if i == 1 else 0),
                                             kz + (1j * h if i == 2 else 0))) / h for i in range(3)])

    def velocity(self, kx, ky, kz):
        return self.grad(kx, ky, kz) * MEV / hbar * ANG

    # -- integration over the Fermi surface -------------------------------------------
    def rays(self, d, eps=0.0, M=48, K=240):
        """all roots of E=eps on a midpoint grid of lines along axis d: points (3,n), dA"""
        ax = [i for i in range(3) if i != d]
        kk = []
        for i in ax:
            kk.append((-1 + (2 * np.arange(M) + 1) / M) * self.kmax[i])
        u, v = np.meshgrid(kk[0], kk[1], indexing="ij")
        u, v = u.ravel(), v.ravel()
        w = np.linspace(-self.kmax[d], self.kmax[d], K)

        def en(uu, vv, ww):
            k = [None] * 3
            k[ax[0]], k[ax[1]], k[d] = uu, vv, ww
            return self.energy(*k) - eps
        E = en(u[:, None], v[:, None], w[None, :])
        sg = E > 0
        i, j = np.nonzero(sg[:, 1:] != sg[:, :-1])
        lo, hi = w[j], w[j + 1]
        slo = sg[i, j]
        uu, vv = u[i], v[i]
        for _ in range(40):
            mid = 0.5 * (lo + hi)
            s = en(uu, vv, mid) > 0
            lo = np.where(s == slo, mid, lo)
            hi = np.where(s == slo, hi, mid)
        k = np.empty((3, len(i)))
        k[ax[0]], k[ax[1]], k[d] = uu, vv, 0.5 * (lo + hi)
        dA = (2 * self.kmax[ax[0]] / M) * (2 * self.kmax[ax[1]] / M)
        return k, dA

    def surface_points(self, eps=0.0, M=48, K=240):
        """quadrature of the surface by rays along the three axes: points (3,n), weights (n,) in Angstrom^-2, gradients (3,n)"""
        ks, ws, gs = [], [], []
        for d in range(3):
            k, dA = self.rays(d, eps, M, K)
            if k.shape[1] == 0:
                continue
            g = self.grad(*k)
            n = np.sqrt((g ** 2).sum(0))
            ks.append(k)
            gs.append(g)
            # partition of unity ~ g_d^4: the weight vanishes smoothly where a ray is tangent
            u = (g * self.kmax[:, None]) ** 4
            ws.append(u[d] / u.sum(0) * n / np.maximum(np.abs(g[d]), 1e-300) * dA)
        if not ks:
            return np.empty((3, 0)), np.empty(0), np.empty((3, 0))
        return np.hstack(ks), np.hstack(ws), np.hstack(gs)

    def bandwidth_floor(self, eps=0.0, M=24):
        """(min, median) of |grad| over the surface: how close to a van Hove point it is"""
        k, w, g = self.surface_points(eps, M, 100)
        if w.size == 0:
            return 0.0, 0.0
        n = np.sqrt((g ** 2).sum(0))
        return float(n.min()), float(np.median(n))


# --------------------------------------------------------------------------------------
def make_band(spec, cls=None, warm=None, **over):
    """The object under test. A fixed share of the cases (chosen by a checksum of the case itself) gets an object with a past:
    built with other settings, used, then brought to the wanted settings through its public attributes (1: parameters, energy scale,
    lattice, zone, resolution differed; 2: same parameters, a discretisation at another energy and resolution is held)."""
    from cuprates_transport.bandstructure import BandStructure
    kw = band_kwargs(spec)
    kw.update(over)
    cls = cls or BandStructure
    if warm is None and "fam" not in spec:     # a random formula can be a constant
        x = np.linspace(0.1, 3, 7)
        with np.errstate(all="ignore"):
            e = Ref(spec).energy(x, x[::-1] + 0.2, 1.7 * x)
        if not np.ptp(e) > 1e-9 * np.max(np.abs(e)):
            warm = 0
    if warm is None:
        warm = spec.get("warm")
    if warm is None:
        warm = [0, 0, 1, 2][zlib.crc32(json.dumps(spec, sort_keys=True).encode()) % 4]
    return cls(**kw) if not warm else used_band(cls, kw, spec, warm)


def used_band(cls, kw, spec, mode):
    res = [15, 15, 7]
    old = dict(kw, resolution=res)
    scale = kw["energy_scale"]
    if mode == 1:
        f = 1.0625
        old.update(a=kw["a"] * f, b=kw["b"] * f, c=kw["c"] / f, energy_scale=scale * 1.25, k_max=[x * 1.5 for x in kw["k_max"]],
                   band_params={k: v * 0.96 for k, v in kw["band_params"].items()})
    b = cls(**old)
    rough, b.res_xy_rough = b.res_xy_rough, 61
    ref = Ref(dict(spec, a=old["a"], b=old["b"], c=old["c"], k_max=[x / pi for x in old["k_max"]]), old["band_params"], old["energy_scale"])
    eps = 0.0 if mode == 1 else 0.03 * scale
    if surface_exists(ref, eps, (15, 15, 7)) and surface_exists(ref, eps, [min(x) for x in zip(getattr(cls, "grid_limit", res), (15, 15, 7))]):
        b.discretize_fermi_surface(epsilon=eps)
        b.dos_epsilon_func()
        if b.march_square:
            b.mass_func()
    b.doping(9, 9, 5)
    b.doping_per_kz(5, 5, 3)
    b.res_xy_rough = rough
    b.resolution = [r if r % 2 else r + 1 for r in kw["resolution"]]
    if mode == 1:
        b.a, b.b, b.c = kw["a"], kw["b"], kw["c"]
        b.k_max = list(kw["k_max"])
        b.energy_scale = scale
        for k in sorted(kw["band_params"], reverse=True):
            b[k] = kw["band_params"][k]
    return b


def band_kwargs(spec):
    return dict(a=spec["a"], b=spec["b"], c=spec["c"], energy_scale=spec["scale"],
                band_params=dict(spec["params"]), band_model=spec["model"],
                band_name=spec.get("name", "band"), resolution=list(spec.get("res", [21, 21, 5])),
                k_max=[x * pi for x in spec.get("k_max", [1, 1, 2])], number_of_bz=spec.get("nbz", 1),
                parallel=spec.get("parallel", False), march_square=spec.get("ms", False))


def check_fs(band, what="Fermi surface"):
    """shape and finiteness of the discretised surface; anything else is a violation"""
    for name in ("kf", "vf", "dkf", "dos_k"):
        v = getattr(band, name, None)
        if v is None or not isinstance(v, np.ndarray):
            raise Violation("%s: %s was not computed" % (what, name))
    n = band.kf.shape[-1]
    if band.kf.shape != (3, n) or band.vf.shape != (3, n) or band.dkf.shape != (n,) or band.dos_k.shape != (n,):
        raise Violation("%s: inconsistent shapes kf%s vf%s dkf%s dos_k%s" %
                        (what, band.kf.shape, band.vf.shape, band.dkf.shape, band.dos_k.shape))
    for name in ("kf", "vf", "dkf"):
        if not np.all(np.isfinite(getattr(band, name))):
            raise Violation("%s: %s is not finite" % (what, name))


def tensor(x, what):
    x = np.asarray(x, dtype=float)
    if x.shape != (3, 3):
        raise Violation("%s: shape %s instead of (3, 3)" % (what, x.shape))
    if not np.all(np.isfinite(x)):
        raise Violation("%s is not finite: %s" % (what, x.tolist()))
    return x


MARGINS = {}        # largest difference / allowed difference seen, per comparison


def near(what, got, want, rtol, scale=None, atol=0.0):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s instead of %s" % (what, got.shape, want.shape))
    s = (np.max(np.abs(want)) if want.size else 0.0) if scale is None else scale
    d = np.abs(got - want)
    lim = rtol * s + atol
    if d.size and np.all(lim > 0):
        x = float(np.max(d / lim))
        if x == x:
            key = re.sub(r"[-+]?[0-9][0-9.e+-]*", "#", what)[:70]
            MARGINS[key] = max(MARGINS.get(key, 0.0), x)
    bad = ~(d <= lim)
    if np.any(bad):
        i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, np.where(bad, d, -1.0))), d.shape) if d.shape else ()
        raise Violation("%s: got %s, expected %s (difference %.3g of scale %.3g, allowed %.3g) %s" %
                        (what, got[i], want[i], d[i], np.max(s), rtol, ("at %s" % (tuple(int(x) for x in i),)) if i else ""))


# --------------------------------------------------------------------------------------
# strategies
def lattice(b_eq=None):
    @st.composite
    def f(draw):
        a = draw(q(3.0, 5.5, 0.05))
        eq = draw(st.booleans()) if b_eq is None else b_eq
        b = a if eq else round(a * draw(st.sampled_from([0.75, 0.9, 1.04, 1.2, 1.35])), 4)
        return a, b, draw(q(5.0, 15.0, 0.2))
    return f()


@st.composite
def cuprate(draw, b_eq=None, tz_min=0.0, res=None, mu_hi=-0.55):
    a, b, c = draw(lattice(b_eq))
    return dict(fam="cuprate", model=CUPRATE, a=a, b=b, c=c, scale=draw(SCALE),
                params=dict(mu=draw(q(-1.3, mu_hi, 0.01)), t=1.0, tp=draw(q(-0.2, -0.02, 0.01)),
                            tpp=draw(q(0.0, 0.09, 0.01)), tz=draw(q(tz_min, 0.09, 0.01))),
                k_max=[1, 1, 2], res=draw(res if res is not None else resolutions()), nbz=1)


@st.composite
def ortho(draw, b_eq=None, res=None, closed=False, odd=True):
    a, b, c = draw(lattice(b_eq))
    tx, ty, tz = draw(q(0.6, 1.2, 0.05)), draw(q(0.6, 1.2, 0.05)), draw(q(0.05, 0.5, 0.05))
    if b == a and draw(st.booleans()):
        ty = tx
    w = 2 * (tx + ty)
    # keep clear of the saddle points of the plane at -2tx+2ty-..., stay in the electron-like regime
    lo, hi = -w - 2 * tz, -2 * abs(tx - ty) - 2 * tz
    f = draw(q(0.45, 0.8, 0.05))
    mu = round(lo + f * (hi - lo), 4)
    model = ORTHO
    if odd and draw(st.sampled_from([True, False, False, False])):      # without inversion or mirror symmetries
        model += " %s %s*%s*%s" % (draw(st.sampled_from("+-")), draw(st.sampled_from([0.1, 0.2])), draw(st.sampled_from(["tx", "ty"])),
                                   draw(st.sampled_from(["sin(2*a*kx)", "sin(b*ky)*(1 + cos(a*kx))", "sin(c*kz)", "sin(c*kz)*cos(b*ky)",
                                                         "sin(a*kx)*sin(b*ky)*sin(c*kz)", "(sin(a*kx) - sin(2*a*kx))*sin(c*kz)",
                                                         "(cos(a*kx) - cos(b*ky))*sin(c*kz)"])))
    return dict(fam="ortho", model=model, a=a, b=b, c=c, scale=draw(SCALE),
                params=dict(mu=mu, tx=tx, ty=ty, tz=tz), k_max=[1, 1, 1],
                res=draw(res if res is not None else resolutions()), nbz=1)


@st.composite
def cylinder(draw, b_eq=None, res=None, tz_max=0.15):
    """warped cylinder with a parabolic section: closed orbits, analytic mass"""
    a, b, c = draw(lattice(b_eq))
    ry = 1.0 if a == b and draw(st.booleans()) else draw(q(0.6, 1.6, 0.1))
    r = draw(q(0.35, 0.7, 0.05)) * pi * min(1.0, math.sqrt(ry))
    t = draw(q(0.1, 1.0, 0.1))
    mu = round(t * r * r, 5)
    tz = round(draw(q(0.0, tz_max, 0.01)) * mu / 2, 5)
    return dict(fam="cylinder", model=CYL % ry, ry=ry, a=a, b=b, c=c, scale=draw(SCALE),
                params=dict(mu=mu, t=t, tz=tz), k_max=[1, 1, 1],
                res=draw(res if res is not None else resolutions()), nbz=1)


@st.composite
def ellipsoid(draw, b_eq=None, res=None, shift=True, holes=True):
    """closed ellipsoidal pocket inside of the zone: x0, y0, z0 and radii in units of 1/a, 1/b, 1/c.
    The parameters x0.. are multiplied by the energy scale like all parameters, so they are written
    as numbers in the formula."""
    a, b, c = draw(lattice(b_eq))
    rx = draw(q(0.35, 0.75, 0.05)) * pi
    fy, fz = draw(q(0.6, 1.3, 0.1)), draw(q(0.6, 1.3, 0.1))
    t = draw(q(0.2, 1.0, 0.1))
    ry, rz = min(rx * fy, 0.8 * pi), min(rx * fz, 0.8 * pi)
    if shift and draw(st.booleans()):
        s = [draw(q(-1, 1, 0.25)) * (0.85 * pi - r) if 0.85 * pi > r else 0.0 for r in (rx, ry, rz)]
    else:
        s = [0.0, 0.0, 0.0]
    s = [round(x, 3) for x in s]
    sg = draw(st.sampled_from([1, -1])) if holes else 1
    cy, cz = round((rx / ry) ** 2, 5), round((rx / rz) ** 2, 5)
    mu = round(t * rx * rx, 5)
    sh = ["(%s*%s%s)" % (l, k, ("-%s" % x if x > 0 else "+%s" % -x) if x else "")
          for l, k, x in zip("abc", ("kx", "ky", "kz"), s)]
    model = "%s(t*(%s**2 + %s*%s**2 + %s*%s**2) - mu)" % ("-" if sg < 0 else "", sh[0], cy, sh[1], cz, sh[2])
    return dict(fam="ellipsoid", model=model, a=a, b=b, c=c, scale=draw(SCALE),
                params=dict(mu=mu, t=t), k_max=[1, 1, 1],
                res=draw(res if res is not None else resolutions()), nbz=1,
                ell=dict(sg=sg, cy=cy, cz=cz, shift=s))


@st.composite
def pockets(draw, b_eq=None, res=None):
    """small pockets: at the centre or the corner of the zone, or at the centre, the corner, X and Y, or inside of each quadrant"""
    a, b, c = draw(lattice(b_eq))
    n, sg = draw(st.sampled_from([1, 2])), draw(st.sampled_from([1, -1]))
    t, tz = 0.5, draw(q(0.0, 0.2, 0.02))
    f = draw(st.sampled_from([0.005, 0.01, 0.02, 0.05, 0.1, 0.2, 0.3]))
    mu = round(-4 * t - 2 * tz + f * 8 * t, 4)
    return dict(fam="pockets", model="- mu %s 2*t*(cos(%d*a*kx) + cos(%d*b*ky)) - 2*tz*cos(c*kz)" % ("-" if sg > 0 else "+", n, n), a=a, b=b, c=c,
                scale=draw(SCALE), params=dict(mu=mu, t=t, tz=tz), k_max=[1, 1, 1],
                res=draw(res if res is not None else resolutions()), nbz=1)


@st.composite
def afband(draw, res=None):
    a, b, c = draw(lattice())
    sg = draw(st.sampled_from([-1, 1]))
    return dict(fam="af", model=AF.replace("sg*", "1*" if sg > 0 else "-1*"), a=a, b=b, c=c,
                scale=draw(SCALE),
                params=dict(mu=draw(q(-1.1, -0.7, 0.02)) if sg < 0 else draw(q(0.7, 1.1, 0.02)), t=1.0,
                            tp=draw(q(-0.25, -0.1, 0.01)), tpp=draw(q(0.05, 0.1, 0.01)),
                            tz=draw(q(0.0, 0.03, 0.01)), M=draw(q(0.1, 0.4, 0.05))),
                k_max=[1, 1, 1], res=draw(res if res is not None else resolutions()), nbz=2)


def resolutions(lo=15, hi=31, zlo=5, zhi=13):
    return st.tuples(st.integers(lo // 2, hi // 2), st.integers(lo // 2, hi // 2),
                     st.integers(zlo // 2, zhi // 2)).map(lambda t: [2 * t[0] + 1, 2 * t[1] + 1, 2 * t[2] + 1])


def smooth_bands(**kw):
    """bands whose Fermi surface is away from van Hove points by construction"""
    return st.one_of(ortho(**kw), cylinder(**kw), ellipsoid(**kw))


def any_band(**kw):
    return st.one_of(cuprate(**kw), ortho(**kw), cylinder(**kw), ellipsoid(**kw), afband(**{k: v for k, v in kw.items() if k == "res"}))


def spec_alpha(spec):
    """dimensionless slopes used for tolerance reasoning: grid steps in Angstrom^-1"""
    r = spec["res"]
    km = np.array(spec["k_max"]) * pi / np.array([spec["a"], spec["b"], spec["c"]])
    return 2 * km / (np.array(r) - 1)


def second_derivative_bound(ref, n=17):
    """per-axis bound of |d2E/dk_i2| and a bound of the mixed ones, over the zone (sampled, with margin)"""
    g = [np.linspace(-m, m, n) for m in ref.kmax]
    k = np.meshgrid(*g, indexing="ij")
    out = np.zeros((3, 3))
    for j in range(3):
        h = 1e-4 * ref.kmax[j]
        kp = [x + (h if i == j else 0) for i, x in enumerate(k)]
        km = [x - (h if i == j else 0) for i, x in enumerate(k)]
        d = (ref.grad(*kp) - ref.grad(*km)) / (2 * h)
        for i in range(3):
            out[i, j] = np.max(np.abs(d[i]))
    return out * 1.3


def surface_exists(ref, eps, n=(31, 31, 11), margin=0.0, fmin=0.02):
    g = [np.linspace(-m, m, k) for m, k in zip(ref.kmax, n)]
    e = ref.energy(*np.meshgrid(*g, indexing="ij"))
    f = np.mean(e > eps)
    return fmin < f < 1 - fmin and e.min() < eps - margin and eps + margin < e.max()


@st.composite
def nearly_fourfold(draw, res=None):
    """a = b and tx = ty, and a small term without the four-fold symmetry, zero on symmetry planes or lines, or almost nowhere else"""
    s = draw(ortho(b_eq=True, res=res, odd=False))
    p = s["params"]
    lo = -4 * p["tx"] - 2 * p["tz"]
    term = draw(st.sampled_from(["(cos(a*kx) - cos(b*ky))*sin(c*kz)", "(cos(a*kx) - cos(b*ky))*sin(c*kz)", "sin(2*a*kx)*sin(c*kz)", "sin(a*kx)*sin(b*ky)*cos(c*kz)",
                                 "(cos(a*kx) - cos(b*ky))", "(cos(2*a*kx) - cos(2*b*ky))*cos(c*kz)", "sin(a*kx)*sin(b*ky)", "sin(a*kx)*sin(2*b*ky)*sin(c*kz)",
                                 "(cos(a*kx) - cos(b*ky))*(cos(a*kx) + cos(b*ky))"]))
    sg = draw(st.sampled_from("+-"))
    return dict(s, model=s["model"] + " %s %s*tx*%s" % (sg, draw(st.sampled_from([0.3, 0.1, 0.03])), term),
                params=dict(p, ty=p["tx"], mu=round(lo + draw(q(0.4, 0.75, 0.05)) * (-2 * p["tz"] - lo), 4)))


@st.composite
def slice_band(draw, **kw):
    """bands for the slice algorithm (some of those with a == b have four-fold symmetry, others not)"""
    s = draw(st.one_of(cuprate(**kw), ortho(**kw), cylinder(**kw), afband(**{k: v for k, v in kw.items() if k == "res"}),
                       ellipsoid(**{k: v for k, v in kw.items() if k == "res"})))
    return dict(s, ms=True)


def merged_slices(kz):
    """group points by kz (exactly equal values are stored per slice); returns sorted unique kz and index"""
    u, inv = np.unique(np.round(np.asarray(kz, float), 12), return_inverse=True)
    return u, inv


# --------------------------------------------------------------------------------------
# the default filling grid has 500^3 points (4 GB, 20 s); the solvers always use it
_CLAMPED = {}


def clamped_class(lim=(25, 25, 9)):
    """BandStructure whose filling grids never exceed `lim` points per axis"""
    lim = tuple(lim)
    if lim in _CLAMPED:
        return _CLAMPED[lim]
    from cuprates_transport.bandstructure import BandStructure

    class Clamped(BandStructure):
        grid_limit = lim

        def dispersion_grid(self, resolution):
            return super().dispersion_grid([min(r, m) for r, m in zip(resolution, lim)])

        def update_filling(self, res_x=500, res_y=500, res_z=500):
            return super().update_filling(min(res_x, lim[0]), min(res_y, lim[1]), min(res_z, lim[2]))

        def doping(self, res_x=500, res_y=500, res_z=500, printDoping=False):
            return super().doping(min(res_x, lim[0]), min(res_y, lim[1]), min(res_z, lim[2]), printDoping)

        def filling(self, res_x=500, res_y=500, res_z=500):
            return super().filling(min(res_x, lim[0]), min(res_y, lim[1]), min(res_z, lim[2]))

    _CLAMPED[lim] = Clamped
    return Clamped


def count_ranges(ref, res, nbz, per_kz=False):
    """[(lo, hi), ...] of the filling counted on the inclusive, periodic and midpoint grids; lo < hi only
    for states at the Fermi level to rounding"""
    out = []
    for kind in ("inclusive", "periodic", "midpoint"):
        g = []
        for m, r in zip(ref.kmax, res):
            if kind == "inclusive":
                g.append(np.linspace(-m, m, r))
            elif kind == "periodic":
                g.append(-m + 2 * m * np.arange(r) / r)
            else:
                g.append(-m + 2 * m * (np.arange(r) + 0.5) / r)
        e = ref.energy(*np.meshgrid(*g, indexing="ij"))
        tol = 1e-9 * np.max(np.abs(e))
        ax = (0, 1) if per_kz else None
        den = (res[0] * res[1] if per_kz else np.prod(res)) * nbz
        out.append((2 * np.sum(e < -tol, axis=ax) / den, 2 * np.sum(e <= tol, axis=ax) / den))
    return out


def meshable(ref, spec, eps=0.0, margin=0.05):
    """the surface exists and is visible on the mesh of the spec, with a margin in units of the hopping"""
    w = spec["scale"] * abs(spec["params"].get("t", spec["params"].get("tx", 1)))
    res = [min(r if r % 2 else r + 1, 31) for r in spec["res"]]
    if spec.get("ms"):
        res[:2] = [41, 41]
    return surface_exists(ref, eps, margin=margin * w) and surface_exists(ref, eps, res, margin * w)
