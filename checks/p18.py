import os
import re
import shutil
import tempfile
import numpy as np
from vlib.core import Sub, Violation
from vlib.hyp import st
from vlib.bands import (Ref, make_band, cuprate, ortho, cylinder, afband, slice_band, q, near, pi, meshable, surface_exists)
from vlib import scat
from vlib.trans import make_cond, omega_tau

RULE = ("Sweeps of 1-2 named bands (also with an antiferromagnetic parameter M), 1-6 azimuths (integers and decimals) and 2-6 polar "
        "angles exported as a table and as figures, into the current folder or another one, with automatic or given names, once or again "
        "after a change of the field. An independent reader takes the table back by the header. "
        "Non-trivial: at least two azimuths and the resistivity depends on the angles.")


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = open(p, "rb").read()
    return out


def read(path):
    """(names, columns) of a table with a tab separated header"""
    lines = open(path).read().split("\n")
    if not lines[0].startswith("#"):
        raise Violation("the table has no header: %r" % lines[0][:80])
    names = lines[0][1:].strip().split("\t")
    rows = [[float(x) for x in l.split()] for l in lines[1:] if l.strip()]
    if len({len(r) for r in rows}) != 1 or len(rows[0]) != len(names):
        raise Violation("%d names in the header for rows of %s values" % (len(names), sorted({len(r) for r in rows})))
    return names, np.array(rows).T


def check_table(path, A, conds, case):
    names, cols = read(path)
    spec = case["bands"][0]["spec"]
    band = conds[0].bandObject
    P = 6e-8            # seven decimals
    if names[0] != "theta[deg]":
        raise Violation("the first column is %s" % names[0])
    near("theta column", cols[0], A.Btheta_array, P, scale=1, atol=1e-6 * max(1, np.max(np.abs(A.Btheta_array))))
    rho = [i for i, n in enumerate(names) if n.startswith("rho")]
    if len(rho) != len(A.Bphi_array):
        raise Violation("%d resistivity columns for %d azimuths" % (len(rho), len(A.Bphi_array)))
    for l, i in enumerate(rho):
        m = re.match(r"rho_?zz\(phi=([-+0-9.e]+)\)\[Ohm\.m\]$", names[i])
        if not m or abs(float(m.group(1)) - A.Bphi_array[l]) > 1e-6:
            raise Violation("column %s where azimuth %s is expected" % (names[i], A.Bphi_array[l]))
        d = np.abs(cols[i] - A.rhozz_array[l])
        if np.any(d > 1e-7 * np.abs(A.rhozz_array[l])):
            raise Violation("the table holds %s for rhozz %s at phi = %s" % (cols[i].tolist(), A.rhozz_array[l].tolist(), A.Bphi_array[l]))
    want = {"B[T]": conds[0].Bamp, "t[meV]": np.round(spec["scale"], 0), "res_x": band.resolution[0], "res_y": band.resolution[1],
            "res_z": band.resolution[2]}
    for k, v in spec["params"].items():
        if k != "t":
            want[k] = np.round(v, 3)
    for n, c in zip(names, cols):
        if n in want:
            near("column %s" % n, c, np.full(len(A.Btheta_array), float(want[n])), 1e-6, scale=max(1, abs(want[n])))
    missing = set(want) - set(names)
    extra = set(names) - set(want) - {names[i] for i in rho} - {"theta[deg]"}
    if missing or extra:
        raise Violation("columns missing %s, unknown %s" % (sorted(missing), sorted(extra)))


def tokens(A, conds, case):
    spec = case["bands"][0]["spec"]
    n = sum(c.bandObject.n for c in conds)
    t = ["p%.3f" % (1 - n), "T%.0f" % conds[0].T, "B%.0f" % conds[0].Bamp, "t%.1f" % spec["scale"]]
    t += ["%s%.3f" % (k, v) for k, v in spec["params"].items() if k != "t"]
    return t + [b["spec"]["name"] for b in case["bands"]]


def check_name(name, ext, A, conds, case):
    if not name.endswith(ext):
        raise Violation("file %s does not end with %s" % (name, ext))
    base = name[:-len(ext)]
    got = base.split("_")
    got += [x[2:] for x in got if x.startswith("AF")]
    for t in tokens(A, conds, case):
        alt = t.replace("-0.000", "0.000")
        if t not in got and alt not in got and t.replace("0.000", "-0.000") not in got:
            raise Violation("the file name %s does not contain %s" % (name, t))


def export(case, ctx):
    from cuprates_transport.admr import ADMR
    B = case["B"]
    conds = []
    for i, b in enumerate(case["bands"]):
        spec = b["spec"]
        ref = Ref(spec)
        if not surface_exists(ref, 0.0, [41, 41, spec["res"][2]] if spec.get("ms") else spec["res"], 0.05 * spec["scale"]):
            ctx.discard()
        if not spec["params"].get("tz", 1):
            ctx.discard()
        band = make_band(spec)
        band.res_xy_rough = 101
        band.runBandStructure()
        if omega_tau(band, b["sc"], B) > 6:
            ctx.discard()
        conds.append(make_cond(band, b["sc"], B, T=0, N_time=40))
    if sum(1 for b in case["bands"] for k in b["spec"]["params"]) and len({b["spec"]["name"] for b in case["bands"]}) < len(case["bands"]):
        ctx.discard()
    A = ADMR(conds, Btheta_min=case["tmin"], Btheta_max=case["tmax"], Btheta_step=case["step"], Bphi_array=list(case["phis"]), show_progress=False)
    try:
        A.runADMR()
    except np.linalg.LinAlgError:
        ctx.discard()
    root = tempfile.mkdtemp(prefix="p18_")
    cwd = os.getcwd()
    try:
        os.makedirs(os.path.join(root, "here"))
        os.makedirs(os.path.join(root, "out", "deep"))
        os.chdir(os.path.join(root, "here"))
        for op in case["ops"]:
            before = tree(root)
            for p in before:
                os.utime(os.path.join(root, p), (1, 1))  # what is written again shows by its date
            if op[0] == "field":
                if any(omega_tau(c.bandObject, b["sc"], op[1]) > 6 for c, b in zip(conds, case["bands"])):
                    continue
                for c in conds:
                    c.Bamp = op[1]
                A.runADMR()
                continue
            folder = {"here": "", "out": os.path.join("..", "out"), "abs": os.path.join(root, "out", "deep")}[op[1]]
            name = op[2]
            ext = ".dat" if op[0] == "table" else ".pdf"
            keep = [A.rhozz_array.copy(), A.rzz_array.copy(), np.array(A.Btheta_array), np.array(A.Bphi_array)]
            kw = dict(folder=folder) if folder else {}
            if name:
                kw["filename"] = name + ext
            if op[0] == "table":
                A.fileADMR(**kw)
            else:
                A.figADMR(fig_show=False, fig_save=True, **kw)
            after = tree(root)
            where = os.path.relpath(os.path.join(root, "here", folder), root)
            new = [p for p in after if p not in before or os.stat(os.path.join(root, p)).st_mtime != 1.0]
            if len(new) != 1 or os.path.dirname(new[0]) != where:
                raise Violation("asked for one file in %s, written: %s" % (where, new))
            if set(before) - set(after):
                raise Violation("files disappeared: %s" % sorted(set(before) - set(after)))
            base = os.path.basename(new[0])
            if name:
                if base != name + ext:
                    raise Violation("asked for %s, written: %s" % (name + ext, base))
            else:
                check_name(base, ext, A, conds, case)
            if op[0] == "table":
                check_table(os.path.join(root, new[0]), A, conds, case)
            elif not after[new[0]].startswith(b"%PDF"):
                raise Violation("the figure file is not a PDF")
            for v, w in zip(keep, [A.rhozz_array, A.rzz_array, A.Btheta_array, A.Bphi_array]):
                if not np.array_equal(v, w):
                    raise Violation("an export changed the sweep")
            ctx.label(op[0], op[1], "named" if name else "automatic")
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    ctx.label(*[b["spec"]["fam"] for b in case["bands"]])
    ctx.nontrivial(len(case["phis"]) > 1 and np.ptp(A.rhozz_array) > 1e-4 * np.max(A.rhozz_array))


RES = st.sampled_from([[9, 9, 3], [11, 9, 3], [9, 9, 5]])
MIXED = [["tx", "ty", "tz", "tp", "tpp"], ["tx", "ty", "tz", "tp", "tpp"], ["Tx", "B1", "a1", "tP", "Q"], ["zx", "Y", "tz2", "V", "e1"]]
NAME = st.sampled_from(["LargePocket", "HolePocket", "electron", "band1", "Nd-LSCO", "x"])


@st.composite
def named(draw, s):
    spec = draw(s)
    for old, new in zip(["tx", "ty", "tz", "tp", "tpp"], draw(st.sampled_from(MIXED))):
        if old in spec["params"] and spec["params"].get("tz", 1):
            spec = dict(spec, model=re.sub(r"\b%s\b" % old, new, spec["model"]), params={new if k == old else k: v for k, v in spec["params"].items()})
    return dict(spec=dict(spec, name=draw(NAME)), sc=draw(scat.models(g0=(5, 40))))


BAND = named(st.one_of(cuprate(res=RES, tz_min=0.03), ortho(res=RES), cylinder(res=RES), afband(res=RES)))
TABLE = st.tuples(st.just("table"), st.sampled_from(["here", "out", "abs"]), st.sampled_from(["", "", "my sweep", "a.b"]))
FIG = st.tuples(st.just("figure"), st.sampled_from(["here", "out", "abs"]), st.sampled_from(["", "fig"]))
FIELD = st.tuples(st.just("field"), st.sampled_from([20, 7.5]))
gen = st.fixed_dictionaries(dict(
    bands=st.lists(BAND, min_size=1, max_size=2), B=st.sampled_from([45, 30, 12.25]),
    tmin=st.sampled_from([0, 0, -10, 2.5]), tmax=st.sampled_from([20, 45, 90]), step=st.sampled_from([15, 20, 22.5, 30]),
    phis=st.lists(st.one_of(st.integers(0, 90), q(0, 180, 7.5)), min_size=1, max_size=4, unique=True),
    ops=st.tuples(TABLE, st.lists(st.one_of(TABLE, TABLE, FIELD), max_size=3)).map(lambda t: [list(x) for x in [t[0]] + t[1]])))
gen_fig = st.fixed_dictionaries(dict(
    bands=st.lists(BAND, min_size=1, max_size=2), B=st.sampled_from([45, 30]), tmin=st.just(0), tmax=st.sampled_from([20, 45]), step=st.sampled_from([15, 20]),
    phis=st.lists(q(0, 180, 7.5), min_size=2, max_size=6, unique=True), ops=st.lists(st.one_of(FIG, TABLE), min_size=1, max_size=2).map(lambda t: [list(x) for x in t])))

SUBS = [Sub("table", gen, export, 640, 20000), Sub("figure", gen_fig, export, 32, 400)]
