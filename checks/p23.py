import contextlib
import io
import os
import re
import shutil
import tempfile

import numpy as np
from vlib import scat
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, any_band, cuprate, ortho, cylinder, ellipsoid, slice_band, q, near, pi, check_fs, clamped_class,
                        meshable, surface_exists, second_derivative_bound)
from vlib.trans import make_cond, omega_tau
from checks.p14 import KB

RULE = ("Computed bands, transport objects (with and without temperature) and angle sweeps x sequences of figures, printed reports and "
        "exports with their options. After every one of them all computed quantities and settings must be bit for bit what they were, at "
        "the end a recomputation must give the same results; curves, points, colours, contours, labels and tables are compared with "
        "the computed values and with independent energies and rates. Non-trivial: at least two figures with data were drawn.")

BAND = ("kf", "vf", "dkf", "dks", "dkz", "dos_k", "dos_epsilon", "mass", "n", "p", "number_of_points_per_kz_list", "a", "b", "c", "energy_scale",
        "resolution", "k_max", "march_square", "number_of_bz", "band_name", "band_model", "parallel", "res_xy_rough", "band_params")
COND = ("sigma", "alpha", "beta", "kft", "vft", "t_o_tau", "time_array", "time_max", "dtime", "dtime_array", "gamma_tot_min", "gamma_tot_max",
        "omegac_tau", "omegac_tau_k", "epsilon_array", "Bamp", "Btheta", "Bphi", "B_vector", "T", "N_time", "N_epsilon", "dfdE_cut_percent", "rtol", "atol",
        "scattering_models", "scattering_params", "gamma_0", "gamma_k", "power", "power_z", "gamma_k_sin", "power_sin", "gamma_dos_max")
SWEEP = ("Btheta_min", "Btheta_max", "Btheta_step", "Btheta_norm", "Btheta_array", "Bphi_array", "rhozz_array", "rzz_array", "total_filling",
         "total_hole_doping", "show_progress")


def freeze(v):
    if isinstance(v, np.ndarray):
        return ("array", v.shape, str(v.dtype), v.tobytes())
    if isinstance(v, dict):
        return ("dict", sorted((str(k), freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ("list", [freeze(x) for x in v])
    return repr(v)


def snapshot(band=None, cond=(), sweep=None):
    out = {}
    bands = ([band] if band is not None else []) + [c.bandObject for c in cond]
    for names, objs in ((BAND, bands), (COND, cond), (SWEEP, [sweep] if sweep is not None else [])):
        for i, o in enumerate(objs):
            for n in names:
                if hasattr(o, n):
                    out[type(o).__name__ + "%d." % i + n] = freeze(getattr(o, n))
    return out


def unchanged(old, new, what):
    for k, v in old.items():
        if k not in new or new[k] != v:
            raise Violation("%s changed %s" % (what, k.split(".")[0].rstrip("0123456789") + "." + k.split(".")[1]))


def draw(f, *args, **kw):
    """the figures a call leaves open (those before it are closed), and what it printed"""
    import matplotlib.pyplot as plt
    plt.close("all")
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        got = f(*args, **kw)
    figs = [plt.figure(n) for n in plt.get_fignums()]
    return figs, s.getvalue(), got


def clouds(ax):
    """all the point sets of an axis: markers, lines, scatters"""
    out = [np.array([np.atleast_1d(np.asarray(x, float)) for x in l.get_data()]) for l in ax.lines
           if np.ndim(l.get_xdata()) <= 1 and np.size(l.get_xdata()) == np.size(l.get_ydata())]
    for c in ax.collections:
        if hasattr(c, "_offsets3d"):
            out.append(np.array([np.asarray(x, float) for x in c._offsets3d]))
        elif len(np.shape(c.get_offsets())) == 2 and hasattr(c, "get_sizes"):
            out.append(np.asarray(c.get_offsets(), float).T)
    return out


def shows(ax, pts, what, rtol=1e-9):
    """one of the point sets of the axis is `pts` (d, n)"""
    pts = np.asarray(pts, float)
    if not pts.size:
        return
    s = max(np.max(np.abs(pts)), 1e-300)
    for c in clouds(ax):
        if c.shape == pts.shape and np.max(np.abs(c - pts)) <= rtol * s:
            return
    raise Violation("%s: no points or curve of the figure are the computed ones (%d point sets drawn)" % (what, len(clouds(ax))))


def contours(ax):
    """vertices of the contour lines by colour: [(colour, (2, n))]"""
    from matplotlib.colors import to_hex
    out = []
    for c in ax.collections:
        if type(c).__name__ in ("QuadContourSet", "PathCollection", "LineCollection") and len(c.get_paths()) and not hasattr(c, "get_sizes"):
            v = [p.vertices for p in c.get_paths() if len(p.vertices)]
            if v:
                out.append((to_hex(np.atleast_2d(c.get_edgecolor())[0]) if len(c.get_edgecolor()) else "", np.vstack(v).T))
    return out


def on_contour(ref, v, kz, mesh_span, nmesh, what):
    """the vertices (in units of 1/a, 1/b) are on the contour of zero energy at kz, to the accuracy of linear interpolation"""
    x, y = v[0] / ref.a, v[1] / ref.b
    h = 2 * np.asarray(mesh_span) / np.array([ref.a, ref.b]) / (nmesh - 1)
    D2 = second_derivative_bound(Ref(dict(ref.spec, k_max=[4, 4, ref.spec["k_max"][2]])) if max(mesh_span) > 2 * pi else ref)
    tol = 0.75 * (D2[0, 0] * h[0] ** 2 + D2[1, 1] * h[1] ** 2 + 2 * D2[0, 1] * h[0] * h[1]) + 1e-6 * ref.spec["scale"]
    e = np.abs(ref.energy(x, y, np.full(len(x), float(kz))))
    if len(e) and np.max(e) > 1.5 * tol:
        raise Violation("%s: the contour passes through an energy of %g (allowed %g)" % (what, np.max(e), 1.5 * tol))


def texts(fig):
    out = [t.get_text() for t in fig.texts]
    for ax in fig.axes:
        out += [t.get_text() for t in ax.texts]
    return out


# ---------------------------------------------------------------------------------------
def band_figures(case, ctx):
    spec = case["spec"]
    if not meshable(Ref(spec), spec):
        ctx.discard()
    lim = [41, 41, 9]
    band = make_band(spec, clamped_class(lim))
    band.res_xy_rough = 101
    if case["run"]:
        band.runBandStructure()
    else:
        band.discretize_fermi_surface()
    check_fs(band)
    if case["dos"]:
        band.dos_epsilon_func()
    if case["mass"] and spec.get("ms"):
        band.mass_func()
    ref = Ref(spec)
    sc = np.array([[spec["a"]], [spec["b"]], [spec["c"]]])
    old = snapshot(band)
    drawn = 0
    for op in case["ops"]:
        kind = op[0]
        if kind == "3d":
            figs, _, _ = draw(band.figDiscretizeFS3D, scale_velocities=op[1])
            shows(figs[-1].axes[0], band.kf.astype(float) * sc, "points of figDiscretizeFS3D", 1e-6)
        elif kind == "2d":
            figs, _, _ = draw(band.figDiscretizeFS2D, meshXY=op[1])
            ax = figs[-1].axes[0]
            if spec.get("ms"):
                top = np.abs(band.kf[2] - ref.kmax[2]) < 1e-9
                shows(ax, (band.kf * sc)[:2, top], "points of figDiscretizeFS2D")
                q_ = [c for c in ax.collections if type(c).__name__ == "Quiver"]
                if q_ and (len(q_[0].U) != top.sum() or not np.allclose(q_[0].U, band.vf[0, top]) or not np.allclose(q_[0].V, band.vf[1, top])):
                    raise Violation("the arrows of figDiscretizeFS2D are not the velocities of its points")
                for col, v in contours(ax):
                    on_contour(ref, v, ref.kmax[2], np.array(spec["k_max"][:2]) * pi, op[1], "figDiscretizeFS2D")
            else:
                shows(ax, band.kf.astype(float) * sc, "points of figDiscretizeFS2D (cubes)", 1e-6)
        elif kind == "slices":
            figs, _, _ = draw(band.figMultipleFS2D)
            ax = figs[-1].axes[0]
            seen = contours(ax)
            for col, z in (("#ff0000", 0.0), ("#ee9c54", 0.5), ("#f3d36b", 1.0)):
                for c, v in seen:
                    if c == col:
                        on_contour(ref, v, z * ref.kmax[2], 4 * np.array(spec["k_max"][:2]) * pi, band.res_xy_rough, "figMultipleFS2D kz = %g kz_max" % z)
            t = texts(figs[-1])
            new = make_band(spec, clamped_class(lim), warm=0)
            pz = new.doping_per_kz(res_z=5)[1][2:]
            for x in pz:
                if not any(number(s) is not None and abs(number(s) - x) < 6e-4 for s in t):
                    raise Violation("figMultipleFS2D does not show the doping %g of one of its planes: %s" % (x, t))
            tot = [s for s in t if "tot" in s]
            if tot and abs(number(tot[0].split("=")[-1]) - new.doping()) > 6e-4:
                raise Violation("figMultipleFS2D shows %s, the doping is %g" % (tot, new.p))
        elif kind == "print":
            n0, p0 = band.n, band.p
            _, s, p = draw(band.doping, 21, 21, 7, printDoping=True)
            m = re.search(r"p\s*=\s*(-?[0-9.]+)", s)
            if not m or abs(float(m.group(1)) - p) > 6e-4 or str(spec.get("name", "band")) not in s:
                raise Violation("printed doping %r, computed %g" % (s, p))
            _, s, n = draw(band.filling, 21, 21, 7)
            m = re.search(r"n\s*=\s*(-?[0-9.]+)", s)
            if not m or abs(float(m.group(1)) - n) > 6e-4:
                raise Violation("printed filling %r, computed %g" % (s, n))
            band.n, band.p = n0, p0
            drawn -= 1
        elif kind == "per_kz":
            draw(band.doping_per_kz, 11, 11, 5)
            drawn -= 1
        elif kind == "params":
            band.bandParameters()
            drawn -= 1
        drawn += 1
        unchanged(old, snapshot(band), str(op))
        ctx.label(kind)
    again = make_band(spec, clamped_class(lim), warm=0)
    again.res_xy_rough = band.res_xy_rough
    again.discretize_fermi_surface()
    band.discretize_fermi_surface()
    for n in ("kf", "vf", "dkf", "dos_k"):
        near("%s computed again after the figures" % n, getattr(band, n), getattr(again, n), 1e-6)
    ctx.label("slices" if spec.get("ms") else "cubes", spec["fam"])
    ctx.nontrivial(drawn >= 2)


def number(s):
    try:
        return float(str(s))
    except ValueError:
        return None


def on_rays(ref, phi, kz, M=1500, tol=0.0):
    """wave vectors (3, n) of zero energy at polar angle phi (degrees) inside of the zone -pi..pi at height kz"""
    r = np.linspace(1e-6, 1.5 * pi / min(ref.a, ref.b), M)
    x, y = r * np.cos(np.deg2rad(phi)), r * np.sin(np.deg2rad(phi))
    inside = (np.abs(x) * ref.a <= pi * 1.02) & (np.abs(y) * ref.b <= pi * 1.02)
    x, y = x[inside], y[inside]
    e = ref.energy(x, y, np.full(len(x), kz))
    j = np.nonzero((e[1:] > 0) != (e[:-1] > 0))[0]
    f = e[j] / (e[j] - e[j + 1])
    flat = np.abs(e) < tol              # where the interpolation on a mesh may put the contour, next to a saddle
    return np.array([np.append(x[j] + f * (x[j + 1] - x[j]), x[flat]), np.append(y[j] + f * (y[j + 1] - y[j]), y[flat]), np.full(len(j) + flat.sum(), kz)])


def rate(sc, spec, ref, k, dos):
    return scat.gamma(sc["models"], sc["par"], spec, k, ref.velocity(*k), dos)


def scattering_colours(ax, sc, spec, ref, dos, kz, lo, hi, what):
    lcs = [c for c in ax.collections if type(c).__name__ == "LineCollection" and c.get_array() is not None]
    arrays, tol = [], 0.0
    for lc in lcs:
        seg = np.array([s[0] for s in lc.get_segments()] + [lc.get_segments()[-1][1]]).T
        k = np.array([seg[0] / spec["a"], seg[1] / spec["b"], np.full(seg.shape[1], kz)])
        g = rate(sc, spec, ref, k, dos)
        a = np.asarray(lc.get_array(), float)
        near(what + ": rates shown by the colours", a, g[:len(a)], 1e-6)
        arrays.append(a)
    if not lcs:
        return 0
    lo = min(np.min(a) for a in arrays) if lo is None else lo
    hi = max(np.max(a) for a in arrays) if hi is None else hi
    for lc in lcs:
        c = lc.get_clim()
        if hi - lo <= 1e-6 * hi:
            continue            # matplotlib widens an empty scale
        if None in c or abs(c[0] - lo) > 1e-6 * hi or abs(c[1] - hi) > 1e-6 * hi:
            raise Violation("%s: the colour scale of a contour is %s, the figure goes from %g to %g" % (what, c, lo, hi))
    return len(lcs)


def cond_figures(case, ctx):
    spec, sc, B, T = case["spec"], case["sc"], case["B"], case["T"]
    th = case["th"]
    if case["long"]:                    # the carriers go around and out of the first zone
        sc, B, T, th = dict(models=["isotropic"], par={"gamma_0": 3.0}), 90, 0, min(th, 30)
    ref = Ref(spec)
    w = 2 * KB * T * np.arccosh(1 / np.sqrt(0.05)) if T else 0.0
    res = [41, 41, spec["res"][2]] if spec.get("ms") else spec["res"]
    if not all(surface_exists(ref, x, res, 0.06 * spec["scale"]) for x in ((-w, 0.0, w) if w else (0.0,))):
        ctx.discard()
    band = make_band(spec, clamped_class((21, 21, 7)))
    band.res_xy_rough = 101
    band.runBandStructure()
    if omega_tau(band, sc, B) > (60 if case["long"] else 8) or band.kf.shape[1] > 1500:
        ctx.discard()
    c = make_cond(band, sc, B, th, case["ph"], T, N_time=60, N_epsilon=3, dfdE_cut_percent=0.05)
    c.runTransport()
    bo = c.bandObject
    dos = np.max(bo.dos_k)
    if not T:
        c.epsilon_array = np.linspace(-1, 1, 5)     # figdfdE uses its spacing
    old = snapshot(cond=[c])
    drawn = 0
    n = min(bo.kf.shape[1], c.kft.shape[1])     # with temperature the orbits kept are those of the last energy
    for op in case["ops"]:
        kind = op[0]
        if kind == "colour":
            kz = op[1] * pi / spec["c"]
            if not plane(ref, kz):
                continue
            lim = dict(gamma_min=op[2], gamma_max=op[3])
            figs, _, _ = draw(c.figScatteringColor, kz=kz, mesh_xy=op[4], **{k: v for k, v in lim.items() if v is not None})
            m = scattering_colours(figs[-1].axes[0], sc, spec, ref, dos, kz, op[2], op[3], "figScatteringColor")
            if m == 0 and crosses(ref, kz):
                raise Violation("figScatteringColor(kz = %g pi/c) draws no Fermi surface" % op[1])
            ctx.label("several contours" if m > 1 else "one contour" if m else "no contour")
        elif kind == "phi":
            kz = op[1] * pi / spec["c"]
            if not plane(ref, kz):
                continue
            figs, _, _ = draw(c.figScatteringPhi, kz=kz, mesh_xy=151)
            ax = figs[-1].axes
            seen = 0
            for a, f, what in ((ax[0], lambda k: rate(sc, spec, ref, k, dos), "rate"), (ax[1], lambda k: ref.velocity(*k)[2], "vz")):
                for l in a.lines:
                    x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
                    if x.shape != y.shape or np.size(x) < 3:
                        continue
                    seen += 1
                    for j in range(0, len(x), max(1, len(x) // 12)):
                        near_ray(ref, x[j], y[j], kz, f, "figScatteringPhi: " + what)
            if not seen and crosses(ref, kz):
                raise Violation("figScatteringPhi draws nothing")
        elif kind in ("kft", "vft", "cum"):
            if not B and kind != "kft":
                continue        # without a field nothing depends on time
            i = op[1] % n if op[1] >= 0 else -1 - (-op[1] - 1) % n
            if kind == "kft" and (op[1] % 3 == 0 or case["long"]):
                far = np.max(np.abs(c.kft[:2, :n]) / ref.kmax[:2, None, None], axis=(0, 2))
                i = int(np.argmax(far))         # the orbit that goes farthest from the centre of the zone
                ctx.label("orbit leaves the zone" if far[i] > 1.001 else "orbit within the zone")
            if kind == "kft":
                figs, _, _ = draw(c.figOnekft, index_kf=i, meshXY=101)
                ax = figs[-1].axes[0]
                s = np.array([spec["a"], spec["b"]])
                shows(ax, c.kft[:2, i] * s[:, None], "orbit of figOnekft")
                shows(ax, bo.kf[:2, i:i + 1 or None].astype(float) * s[:, None], "starting point of figOnekft", 1e-6)
                shows(ax, c.kft[:2, i, -1:] * s[:, None], "end point of figOnekft")
                for col, v in contours(ax):
                    on_contour(ref, v, float(bo.kf[2, i]), [pi, pi], 101, "figOnekft")
            elif kind == "vft":
                figs, _, _ = draw(c.figOnevft, index_kf=i)
                shows(figs[-1].axes[0], np.array([c.time_array, c.vft[2, i]]), "curve of figOnevft")
            else:
                figs, _, _ = draw(c.figCumulativevft, index_kf=i)
                shows(figs[-1].axes[0], np.array([c.time_array, np.cumsum(c.vft[2, i] * np.exp(-c.t_o_tau[i]))]), "curve of figCumulativevft")
        elif kind == "dfdE":
            if not T:
                continue
            figs, _, _ = draw(c.figdfdE)
            for x, y in clouds(figs[-1].axes[0]):
                if np.ptp(y) == 0 and len(y) == 2:
                    continue        # the axis
                near("-df/dE drawn by figdfdE", y, 1 / (4 * KB * T * np.cosh(np.clip(x / (2 * KB * T), -300, 300)) ** 2), 1e-6, scale=1 / (4 * KB * T))
        elif kind == "params":
            figs, _, fig = draw(c.figParameters, fig_show=op[1])
            f = figs[-1] if figs else fig
            if fig is None:
                raise Violation("figParameters does not return its figure")
            cells = {}
            for ax in f.axes:
                for t in ax.tables:
                    cc = t.get_celld()
                    for (r, j) in cc:
                        if r > 0 and j == 0 and (r, 1) in cc:
                            cells[cc[r, 0].get_text().get_text()] = cc[r, 1].get_text().get_text()
            want = dict(bo.band_params)
            want.update(c.scattering_params)
            want.update({"band name": bo.band_name, "energy scale": bo.energy_scale, "# of BZ": bo.number_of_bz, "a": bo.a, "b": bo.b, "c": bo.c})
            for k, v in want.items():
                if k not in cells or (number(cells[k]) is not None and abs(number(cells[k]) - v) > 5e-4 * abs(v)) or (isinstance(v, str) and cells[k] != v):
                    raise Violation("the table of figParameters gives %s for %s = %s" % (cells.get(k), k, v))
            for ax in f.axes:
                for col, v in contours(ax):
                    z = {"#ff0000": 0.0, "#ee9c54": 1.0, "#f3d36b": 2.0}.get(col)
                    if z is not None:
                        on_contour(ref, v, z * pi / spec["c"], [pi, pi], 201, "figParameters, kz = %g pi/c" % z)
            if plane(ref, 0.0):
                for ax in f.axes:
                    scattering_colours(ax, sc, spec, ref, dos, 0.0, None, None, "figParameters")
        drawn += 1
        unchanged(old, snapshot(cond=[c]), str(op))
        ctx.label(kind)
    before = {k: np.array(getattr(c, k), float) for k in ("sigma", "gamma_tot_min", "gamma_tot_max", "time_max", "kft")}
    c.runTransport()
    for k, v in before.items():
        near("%s of another run after the figures" % k, getattr(c, k), v, 1e-9)
    ctx.label("T" if T else "T0", spec["fam"])
    ctx.nontrivial(drawn >= 2)


def plane(ref, kz):
    """the section at kz is regular: either clearly empty or clearly there, and the rates are finite on it"""
    g = [np.linspace(-pi / l, pi / l, 141) for l in (ref.a, ref.b)]
    e = ref.energy(*np.meshgrid(*g, [kz], indexing="ij"))
    f = np.mean(e > 0)
    s = 0.02 * np.max(np.abs(e))
    return np.all(e > s) or np.all(e < -s) or 0.03 < f < 0.97


def crosses(ref, kz):
    g = [np.linspace(-pi / l, pi / l, 141) for l in (ref.a, ref.b)]
    return 0.03 < np.mean(ref.energy(*np.meshgrid(*g, [kz], indexing="ij")) > 0) < 0.97


def near_ray(ref, phi, val, kz, f, what, mesh=151):
    """val is f at a point of the contour seen from the centre under phi (or close to it: the mesh of the figure is finite)"""
    best = np.inf
    vals = []
    if not hasattr(ref, "mesh_error"):
        h = 2 * pi / np.array([ref.a, ref.b]) / (mesh - 1)
        D2 = second_derivative_bound(ref)
        ref.mesh_error = (D2[0, 0] * h[0] ** 2 + D2[1, 1] * h[1] ** 2 + 2 * D2[0, 1] * h[0] * h[1]) / 4
    tol = ref.mesh_error
    for d in (0.0, 0.4, -0.4, 1.2, -1.2, 3.0, -3.0):
        k = on_rays(ref, phi + d, kz, tol=tol)
        if k.shape[1]:
            vals += list(np.atleast_1d(f(k)) + np.zeros(k.shape[1]))
    if not vals:
        return
    vals = np.array(vals)
    s = max(np.max(np.abs(vals)), 1e-9)
    lo, hi = vals.min() - 0.03 * s, vals.max() + 0.03 * s
    best = np.min(np.abs(vals - val))
    if best > 0.12 * s and not (lo <= val <= hi and np.ptp(vals) > 0.1 * s) or not (lo - 0.1 * s <= val <= hi + 0.1 * s):
        raise Violation("%s at phi = %g is drawn as %g, the contour has %s there" % (what, phi, val, np.round(vals[:4], 5).tolist()))


def sweep_figures(case, ctx):
    from cuprates_transport.admr import ADMR
    conds, B = [], case["B"]
    for b in case["bands"]:
        spec = b["spec"]
        ref = Ref(spec)
        if not surface_exists(ref, 0.0, spec["res"], 0.05 * spec["scale"]) or not spec["params"].get("tz", 1):
            ctx.discard()
        band = make_band(spec)
        band.runBandStructure()
        if omega_tau(band, b["sc"], B) > 6:
            ctx.discard()
        conds.append(make_cond(band, b["sc"], B, T=0, N_time=40))
    A = ADMR(conds, Btheta_min=case["tmin"], Btheta_max=case["tmax"], Btheta_step=case["step"], Btheta_norm=case["norm"], Bphi_array=list(case["phis"]),
             show_progress=False)
    try:
        A.runADMR()
    except np.linalg.LinAlgError:
        ctx.discard()
    old = snapshot(cond=A.condObject_list, sweep=A)
    root = tempfile.mkdtemp(prefix="p23_")
    try:
        for op in case["ops"]:
            if op[0] == "table":
                draw(A.fileADMR, folder=root)
            else:
                save = op[1]
                figs, _, _ = draw(A.figADMR, fig_show=True, fig_save=save, folder=root)
                fig = figs[0]
                ax = fig.axes[0]
                drawn = {}
                for l in ax.lines:
                    if np.size(l.get_xdata()) == len(A.Btheta_array) and np.size(l.get_ydata()) == len(A.Btheta_array):
                        m = re.search(r"=\s*(-?[0-9.]+)", l.get_label())
                        if m:
                            drawn.setdefault(m.group(1), []).append((np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)))
                for i, ph in enumerate(A.Bphi_array):
                    cand = [d for k, v in drawn.items() if abs(float(k) - ph) <= 0.501 for d in v]
                    if not any(np.allclose(x, A.Btheta_array, rtol=0, atol=1e-9) and np.allclose(y, A.rzz_array[i], rtol=1e-9, atol=0) for x, y in cand):
                        raise Violation("figADMR: the curve labelled phi = %g is not the one computed" % ph)
                if len(fig.axes) > 1:
                    y1, y2 = np.array(ax.get_ylim()), np.array(fig.axes[1].get_ylim())
                    # the right axis is rho_zz of the first azimuth in mOhm cm
                    s = np.interp(A.Btheta_norm, A.Btheta_array, A.rhozz_array[0]) * 1e5
                    if not np.allclose(y2, y1 * s, rtol=1e-6):
                        raise Violation("figADMR: right axis %s for a left axis %s and rho_zz(norm) = %g mOhm cm" % (y2, y1, s))
                t = " ".join(texts(fig))
                m = re.search(r"\$B\$\s*=\s*(-?[0-9.]+)", t)
                if m and abs(float(m.group(1)) - A.condObject_list[0].Bamp) > 0.51:
                    raise Violation("figADMR: %s for a field of %g T" % (m.group(0), A.condObject_list[0].Bamp))
            ctx.label(*map(str, op))
            unchanged(old, snapshot(cond=A.condObject_list, sweep=A), str(op))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    keep = A.rhozz_array.copy(), A.rzz_array.copy()
    A.runADMR()
    near("rho_zz of the sweep run again", A.rhozz_array, keep[0], 1e-9)
    near("normalised rho_zz of the sweep run again", A.rzz_array, keep[1], 1e-9)
    ctx.label(*[b["spec"]["fam"] for b in case["bands"]])
    ctx.nontrivial(len(case["phis"]) > 1)


RES = st.sampled_from([[13, 13, 5], [15, 13, 7], [11, 15, 9]])
fig_b = st.one_of(st.tuples(st.just("3d"), st.sampled_from([0, 0.5, 1])), st.tuples(st.just("2d"), st.sampled_from([101, 201])),
                  st.tuples(st.just("2d"), st.just(101)), st.tuples(st.just("slices")), st.tuples(st.just("print")),
                  st.tuples(st.just("per_kz")), st.tuples(st.just("params"))).map(list)
gen_band = st.fixed_dictionaries(dict(
    spec=st.one_of(any_band(res=RES), slice_band(res=RES), slice_band(res=RES), ellipsoid(res=RES).map(lambda s: dict(s, ms=True))),
    run=st.booleans(), dos=st.booleans(), mass=st.booleans(), ops=st.lists(fig_b, min_size=2, max_size=5)))

KZ = st.sampled_from([0, 0, 0.5, 1, -1, 1.5])
fig_c = st.one_of(
    st.tuples(st.just("colour"), KZ, st.none() | q(0.5, 4, 0.5), st.none() | q(30, 80, 5), st.sampled_from([81, 121])),
    st.tuples(st.just("colour"), KZ, st.none(), st.none(), st.sampled_from([81, 120])),
    st.tuples(st.just("phi"), KZ), st.tuples(st.sampled_from(["kft", "vft", "cum"]), st.integers(-20, 400)),
    st.tuples(st.just("kft"), st.integers(-20, 400)), st.tuples(st.just("dfdE")), st.tuples(st.just("params"), st.booleans())).map(list)
CRES = st.sampled_from([[9, 9, 3], [11, 9, 5], [9, 11, 5]])
_cond = dict(
    spec=st.one_of(cuprate(res=CRES), ortho(res=CRES), cylinder(res=CRES), slice_band(res=CRES), ellipsoid(res=st.just([13, 13, 13]))),
    sc=scat.models(smooth=True), B=st.sampled_from([0, 10, 45]), th=q(0, 90, 15), ph=q(0, 90, 15), T=st.sampled_from([0, 0, 0, 10, 40]), long=st.just(False),
    ops=st.lists(fig_c, min_size=2, max_size=5))
gen_cond = st.one_of(*[st.fixed_dictionaries(_cond)] * 3, st.fixed_dictionaries(dict(_cond, spec=cuprate(res=CRES, b_eq=True, mu_hi=-0.7), long=st.just(True),
    ops=st.lists(st.one_of(fig_c, st.just(["kft", 0])), min_size=2, max_size=4))))
ARES = st.sampled_from([[9, 9, 3], [11, 9, 3]])
SPEC = st.one_of(cuprate(res=ARES, tz_min=0.03), ortho(res=ARES), cylinder(res=ARES))
ONE = st.builds(lambda s, c, n: dict(spec=dict(s, name=n), sc=c), SPEC, scat.models(g0=(5, 40)), st.sampled_from(["b1", "b2", "b3"]))
gen_sweep = st.fixed_dictionaries(dict(
    bands=st.lists(ONE, min_size=1, max_size=2, unique_by=lambda b: b["spec"]["name"]), B=st.sampled_from([45, 30]), tmin=st.sampled_from([0, -15]),
    tmax=st.sampled_from([30, 45]), step=st.sampled_from([15, 10]), norm=st.sampled_from([0, 0, 15, 20]),
    phis=st.lists(st.integers(0, 12).map(lambda i: 7.5 * i), min_size=2, max_size=6, unique=True),
    ops=st.lists(st.tuples(st.sampled_from(["figure", "figure", "table"]), st.booleans()).map(list), min_size=1, max_size=2)))

SUBS = [Sub("band", gen_band, band_figures, 64, 2400), Sub("cond", gen_cond, cond_figures, 240, 4000), Sub("sweep", gen_sweep, sweep_figures, 40, 1200)]
