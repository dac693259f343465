import os
import shutil
import tempfile
import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import q, near, pi
from vlib.fits import DRIVERS, modules, lin, write_table, member, freeze, files

RULE = ("Data files with 5-30 rows in any order, theta and the curve in any columns among others, one per (temperature, azimuth), for "
        "each of the four fit drivers; azimuths and temperatures in the dictionary that are not asked for; cuts, prefactors, normalisation "
        "angles. Matrices against an independent interpolation. Non-trivial: at least two azimuths, "
        "files with extra columns or disordered rows, curves that vary.")

SPEC = dict(model="-mu + 2*t*(2 - cos(a*kx) - cos(b*ky)) - 2*tz*cos(c*kz)", a=3.8, b=3.8, c=10.0, scale=100.0,
            params=dict(mu=2.0, t=1.0, tz=0.1), k_max=[1, 1, 1], res=[9, 9, 3], nbz=1)
SC = dict(models=["isotropic"], par=dict(gamma_0=10.0))


def make_files(case, root):
    """{(T, phi): (path, theta, values, spec of the file)}"""
    out = {}
    for i, f in enumerate(case["files"]):
        key = (f["T"], f["phi"])
        if key in out:
            continue
        r = np.random.RandomState(f["seed"])
        n = f["n"]
        theta = np.sort(np.round(np.linspace(case["lo"] - 1.0, case["top"], n) + r.uniform(-0.3, 0.3, n) * (case["top"] - case["lo"]) / n, 3))
        theta[0], theta[-1] = case["lo"] - 1.0, case["top"]
        values = np.round(f["level"] * (1 + 0.3 * r.uniform(-1, 1, n)), 5)
        path = os.path.join(root, "file%d.dat" % i)
        write_table(path, theta, values, f["ct"], f["cv"], f["ncol"], f["order"], f["seed"], header=f["header"])
        out[key] = (path, theta, values, f)
    return out


def prepare(case, ctx):
    root = tempfile.mkdtemp(prefix="p19_")
    try:
        F = make_files(case, root)
        before = files(root)
        Ts = sorted({k[0] for k in F})
        T = Ts[case["pick"] % len(Ts)]
        mods = modules()
        drv = case["driver"]
        phis_T = [p for (t, p) in F if t == T]
        if drv == "multiT":
            data = {k: [v[0], v[3]["ct"], v[3]["cv"], case["lo"] + v[3]["dmin"], case["hi"] - v[3]["dmax"], case["step"], case["norm"], v[3]["pre"]]
                    for k, v in F.items()}
            keep = freeze(data)
            A = mods[drv].FitAnglesADMR(T, data)
            phis, thetas = A.create_angles()
            lo = min(data[T, p][3] for p in phis_T)
            hi = max(data[T, p][4] for p in phis_T)
            if sorted(map(float, phis)) != sorted(map(float, phis_T)):
                raise Violation("azimuths %s instead of %s" % (list(phis), phis_T))
            near("first and last polar angle", [thetas[0], thetas[-1]], [lo, hi], 1e-9, scale=1)
            d = np.diff(thetas)
            near("equal steps", d, np.full(len(d), np.mean(d)), 1e-9, scale=1)
            N = int((hi - lo) / case["step"])
            if not (hi - lo) / (N + 1.01) <= d[0] <= (hi - lo) / max(N - 2.01, 0.99):
                raise Violation("polar step %g where %g was asked for" % (d[0], case["step"]))
            if A.Btheta_norm != case["norm"]:
                raise Violation("normalisation angle %s instead of %s" % (A.Btheta_norm, case["norm"]))
            order = phis[::-1] if case["flip"] else phis
            D = mods[drv].DataADMR(T, data, np.array(order), thetas)
            for n in range(2):
                D.load_data(case["norm"])
                got = (D.rhozz_data_matrix, D.rzz_data_matrix)
            for i, p in enumerate(order):
                path, th, v, f = F[T, float(p)] if (T, float(p)) in F else F[T, p]
                near("measured curve times its prefactor", got[0][i], lin(thetas, th, v) * f["pre"], 1e-9)
                near("normalised curve", got[1][i], lin(thetas, th, v) / lin(case["norm"], th, v), 1e-9)
            used = list(order)
        else:
            data = {k: [v[0], v[3]["ct"], v[3]["cv"], case["hi"] - v[3]["dmax"], v[3]["pre"]] for k, v in F.items()}
            keep = freeze(data)
            asked = [p for j, p in enumerate(sorted(set(phis_T))) if j != case["skip"]] or phis_T[:1]
            asked_all = asked + [77.0]
            if case["flip"]:
                asked_all = asked_all[::-1]
            kw = dict(Btheta_min=case["lo"], Btheta_max=case["hi"], Btheta_step=case["step"], Bphi_array=list(asked_all), data_p=0.2)
            if drv == "oneT":
                fit = mods[drv].FittingADMRParallel(member(SPEC, SC, 10, data_T=T, **kw), dict(gamma_0=[5, 20]), data, folder=root)
                got = [(T, fit.Bphi_array, fit.Btheta_array, fit.rhozz_data_matrix, fit.rzz_data_matrix)]
            elif drv == "series":
                fit = mods[drv].FittingADMR(member(SPEC, SC, 10, data_T=T, **kw), dict(mu=[1.9, 2.1]), data, folder=root)
                fit.load_and_interp_data()
                fit.load_and_interp_data()
                got = [(T, fit.Bphi_array, fit.Btheta_array, fit.rhozz_data_matrix, fit.rzz_data_matrix)]
            else:
                have = [t for t in Ts if any((t, p) in F for p in asked)]
                fit = mods[drv].FittingADMR(member(SPEC, SC, 10, data_T=list(have), **kw), dict(mu=[1.9, 2.1]), data, folder=root)
                fit.load_and_interp_data()
                got = [(t, fit.Bphi_dict[t], fit.Btheta_dict[t], fit.rhozz_data_i_dict[t], fit.rzz_data_i_dict[t]) for t in have]
            for t, phis, thetas, rho, rzz in got:
                want = sorted({float(p) for p in asked if (t, p) in F})
                if [float(p) for p in phis] != want:
                    raise Violation("azimuths %s instead of %s" % (list(phis), want))
                cut = min(data[t, p][3] for p in want)
                full = case["lo"] + case["step"] * np.arange(1000)
                full = full[full <= min(cut + 1e-9, case["hi"] + case["step"] - 1e-9)]
                th = np.asarray(thetas, float)
                inside = full[full <= case["hi"] + 1e-9]
                if th.size < inside.size or th.size > full.size:
                    raise Violation("polar angles %s for the range %s to %s cut at %s" % (th.tolist(), case["lo"], case["hi"], cut))
                near("polar angles", th, full[:th.size], 1e-9, scale=1)
                if rho.shape != (len(want), th.size) or rzz.shape != rho.shape:
                    raise Violation("data matrices of shape %s for %d azimuths and %d angles" % (rho.shape, len(want), th.size))
                for i, p in enumerate(want):
                    path, tt, v, f = F[t, p]
                    near("normalised curve", rzz[i], lin(th, tt, v) / lin(0.0, tt, v), 1e-9)
                    near("normalised curve times its prefactor", rho[i], lin(th, tt, v) / lin(0.0, tt, v) * f["pre"], 1e-9)
            used = want
        if files(root) != before:
            raise Violation("preparing the data changed the files")
        if freeze(data) != keep:
            raise Violation("preparing the data changed the dictionary")
        ctx.label(drv, *{F[k][3]["order"] for k in F})
        ctx.nontrivial(len(used) > 1 and any(f[3]["order"] != "up" or f[3]["ncol"] > 2 for f in F.values()))
    finally:
        shutil.rmtree(root, ignore_errors=True)


@st.composite
def afile(draw):
    ncol = draw(st.integers(2, 5))
    ct = draw(st.integers(0, ncol - 1))
    cv = draw(st.integers(0, ncol - 1).filter(lambda c: c != ct))
    return dict(T=draw(st.sampled_from([25, 12, 20.5])), phi=float(draw(st.sampled_from([0, 15, 30, 45, 28.5]))), ncol=ncol, ct=ct, cv=cv,
                n=draw(st.integers(5, 30)), order=draw(st.sampled_from(["up", "down", "random"])), header=draw(st.booleans()),
                seed=draw(st.integers(0, 10 ** 6)), level=draw(st.sampled_from([1.0, 6.7e-5 * 1e5, 250.0])),
                pre=draw(st.sampled_from([6.71e-5, 1.0, 1e-5, 3.3e-4])), dmin=draw(st.sampled_from([0, 0, 5])),
                dmax=draw(st.sampled_from([0, 0, 6.5, 16.5])))


gen = st.fixed_dictionaries(dict(
    driver=st.sampled_from(list(DRIVERS)), files=st.lists(afile(), min_size=1, max_size=8), pick=st.integers(0, 2), skip=st.integers(0, 6),
    lo=st.sampled_from([0.0, 0.0, -10.0, 5.0]), hi=st.sampled_from([90.0, 60.0, 85.0]), top=st.sampled_from([92.0, 111.0]),
    step=st.sampled_from([5.0, 2.5, 10.0, 4.0]), norm=st.sampled_from([0, 0, 20.0, 33.3]), flip=st.booleans()))

SUBS = [Sub("prepare", gen, prepare, 1600, 60000)]
