"""Plant a bug: python3 tools/plant.py DEFS.py [id ...]
DEFS.py holds BUGS = {id: dict(property, needs, breaks, file, edits=[(old, new), ...] | files={file: edits}, demo=source)}.
For each: a scratch copy of /repo under /tmp, the edits (line endings of the file kept), the demo on /repo (must exit 0) and
on the copy (must not), the stable tests on the copy; when all hold /verif/seeded/<id>/ is written."""
import json, os, shutil, subprocess, sys, runpy

PRE = '''import os, sys, warnings
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
warnings.simplefilter("ignore")
sys.path.insert(0, os.getcwd())
import logging
logging.disable(logging.CRITICAL)
import numpy as np
from numpy import pi
from cuprates_transport.bandstructure import BandStructure
from cuprates_transport.conductivity import Conductivity
from cuprates_transport.admr import ADMR

ORTHO = "- mu - 2*tx*cos(a*kx) - 2*ty*cos(b*ky) - 2*tz*cos(c*kz)"


def cup(**kw):
    p = dict(a=3.75, b=3.75, c=13.2, energy_scale=160, resolution=[21, 21, 7], parallel=False,
             band_params={"mu": -0.82, "t": 1, "tp": -0.14, "tpp": 0.07, "tz": 0.07})
    p.update(kw)
    return BandStructure(**p)


def ort(**kw):
    p = dict(a=3.9, b=4.6, c=9.0, energy_scale=120, resolution=[21, 21, 9], parallel=False, k_max=[pi, pi, pi], band_model=ORTHO,
             band_params={"mu": -1.9, "tx": 1.0, "ty": 0.8, "tz": 0.2})
    p.update(kw)
    return BandStructure(**p)


def cond(band, run=True, **kw):
    p = dict(Bamp=30, Btheta=0, Bphi=0, T=0, N_time=150, scattering_models=["isotropic"], scattering_params={"gamma_0": 10.0})
    p.update(kw)
    if band.kf is None:
        band.runBandStructure()
    c = Conductivity(band, **p)
    if run:
        c.runTransport()
    return c


def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)


def same(x, y, what, rtol=1e-6):
    x, y = np.asarray(x, float), np.asarray(y, float)
    check(x.shape == y.shape and np.all(np.abs(x - y) <= rtol * np.max(np.abs(y))), "%s: %s instead of %s" % (what, x, y))

'''
SH = '''#!/bin/bash
# run from the repository
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


def tests(copy):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    env = dict(PYTHONHASHSEED="0", MPLBACKEND="Agg", NUMBA_CPU_NAME="generic", NUMBA_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1",
               NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL", PYTHONPATH=copy)
    x = copy + ".xml"
    rc, out = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "6", "--dist", "loadscope",
                   "--continue-on-collection-errors", "-o", "python_files=test_*.py tests.py", "--junitxml=" + x,
                   "tests/test_transport.py", "tests/tests.py"], copy, env)
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(x).getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add("%s::%s" % (tc.get("classname"), tc.get("name")))
    os.remove(x)
    return sorted(stable - ok)


def plant(bid, d, notest=False):
    copy = "/tmp/plant/%s" % bid
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, symlinks=True)
    try:
        files = d.get("files") or {d["file"]: d["edits"]}
        for f, edits in files.items():
            p = os.path.join(copy, "cuprates_transport", f)
            raw = open(p, newline="").read()
            crlf = "\r\n" in raw
            txt = raw.replace("\r\n", "\n")
            for old, new in edits:
                if txt.count(old) != 1:
                    return "edit matches %d times: %r" % (txt.count(old), old[:60])
                txt = txt.replace(old, new)
            open(p, "w", newline="").write(txt.replace("\n", "\r\n") if crlf else txt)
        rc, diff = run(["git", "diff", "--no-color"], copy)
        raw = subprocess.run(["git", "diff", "--no-color"], cwd=copy, stdout=subprocess.PIPE).stdout
        ddir = "/tmp/plant/%s.demo" % bid
        shutil.rmtree(ddir, ignore_errors=True)
        os.makedirs(ddir)
        open(ddir + "/demo.py", "w").write(PRE + d["demo"].lstrip("\n"))
        open(ddir + "/demo.sh", "w").write(SH)
        os.chmod(ddir + "/demo.sh", 0o755)
        rc0, o0 = run(["bash", ddir + "/demo.sh"], "/repo")
        if rc0:
            return "the demo fails on the unchanged tree: " + o0[-600:]
        rc1, o1 = run(["bash", ddir + "/demo.sh"], copy)
        if not rc1:
            return "the demo does not show the bug"
        if not notest:
            bad = tests(copy)
            if bad:
                return "stable tests fail: %s" % bad
        out = os.path.join(HERE, "seeded", bid)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "wb").write(raw)
        shutil.copy(ddir + "/demo.py", out)
        shutil.copy(ddir + "/demo.sh", out)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        rc, o = run(["git", "apply", "--check", out + "/patch.diff"], "/repo")
        if rc:
            return "the patch does not apply: " + o
        return "OK   demo says: " + o1.strip().split("\n")[-1][:160]
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree("/tmp/plant/%s.demo" % bid, ignore_errors=True)


if __name__ == "__main__":
    defs = runpy.run_path(sys.argv[1])["BUGS"]
    for bid in ([x for x in sys.argv[2:] if x[0] != "-"] or defs):
        print(bid, plant(bid, defs[bid], "-n" in sys.argv), flush=True)
