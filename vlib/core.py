"""Runner: shards generated cases over processes, shrinks failures, writes replays and evidence.

A check module (checks/pXX.py) holds  TITLE-free data:
    RULE    one sentence: how cases are made and what makes one non-trivial
    SUBS    list of Sub(name, gen, fn, quick, thorough, jit=False, assume=[...])
Each case is a plain JSON value, `fn(case, ctx)` decides it; it raises Violation when the
property is broken.  Every random choice is made by the hypothesis strategy `gen`."""
import contextlib
import hashlib
import importlib
import io
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

REPO = "/repo"
NPROC = 8


class Violation(Exception):
    pass


class Discard(Exception):
    pass


class _Stop(BaseException):
    pass


class Sub:
    def __init__(self, name, gen, fn, quick, thorough, jit=False, max_shrink=25.0):
        self.name, self.gen, self.fn = name, gen, fn
        self.quick, self.thorough, self.jit = quick, thorough, jit
        self.max_shrink = max_shrink


class Ctx:
    """What a single case reports."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False
        self.knowns = []

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, *names):
        self.labels.extend(names)

    def known(self, kid, detail):
        """the case shows exactly the listed finding `kid`"""
        self.knowns.append((kid, detail))

    @staticmethod
    def fail(msg):
        raise Violation(msg)

    @staticmethod
    def require(cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    @staticmethod
    def discard():
        raise Discard()


# ---------------------------------------------------------------------------------------
def load_known(here):
    out = {}
    path = os.path.join(here, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "known":
                    out[d["id"]] = d
    return out


def repo_in_traceback(exc):
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/cuprates_transport"):
            return True
        tb = tb.tb_next
    return False


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    last = traceback.extract_tb(exc.__traceback__)
    where = ""
    for fr in last:
        if fr.filename.startswith(REPO):
            where = "%s:%d" % (fr.filename, fr.lineno)
    return "the code raised %s: %s (%s)" % (type(exc).__name__, str(exc)[:300], where)


def run_case(sub, case, ctx):
    """One case; returns None, or the exception that shows a violation. Harness errors propagate."""
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            sub.fn(case, ctx)
        return None
    except Discard:
        ctx.labels.append("discarded")
        ctx.is_nontrivial = False
        return None
    except Violation as exc:
        return exc
    except (Exception, SystemExit) as exc:
        if repo_in_traceback(exc):
            return exc
        raise
    finally:
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")


def prepare_imports():
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all="ignore")


# ---------------------------------------------------------------------------------------
def run_sub(sub, n, seed_value, deadline, known):
    from vlib import hyp
    st = dict(evals=0, discarded=0, nontrivial=set(), labels={}, samples=[], knowns={},
              fails=[], error=None, truncated=False, minimal=None)
    t = dict(shrink=None)

    def body(case):
        now = time.time()
        if t["shrink"] is not None and now > t["shrink"]:
            raise _Stop()
        if t["shrink"] is None and now > deadline:
            st["truncated"] = True
            raise _Stop()
        ctx = Ctx()
        exc = run_case(sub, case, ctx)
        if t["shrink"] is None:
            st["evals"] += 1
            for l in ctx.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            txt = json.dumps(case, sort_keys=True)
            if ctx.is_nontrivial:
                st["nontrivial"].add(hashlib.sha1((sub.name + txt).encode()).hexdigest()[:16])
                if len(st["samples"]) < 2 and len(txt) < 1500:
                    st["samples"].append(case)
        for kid, detail in ctx.knowns:
            if kid in known:
                k = st["knowns"].setdefault(kid, dict(count=0, detail=detail))
                k["count"] += 1
            elif exc is None:
                exc = Violation("unlisted finding %s: %s" % (kid, detail))
        if exc is not None:
            txt = json.dumps(case, sort_keys=True)
            st["fails"].append((len(txt), case, describe(exc)))
            st["minimal"] = (case, describe(exc))
            if t["shrink"] is None:
                t["shrink"] = now + sub.max_shrink
            raise Violation(describe(exc))

    test = hyp.given(sub.gen)(body)
    test = hyp.seed(seed_value)(test)
    test = hyp.settings(database=None, deadline=None, max_examples=n, print_blob=False,
                        suppress_health_check=list(hyp.HealthCheck),
                        phases=(hyp.Phase.generate, hyp.Phase.shrink),
                        report_multiple_bugs=False)(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            test()
    except _Stop:
        pass
    except BaseException:
        if not st["fails"]:
            st["error"] = traceback.format_exc()[-3000:]
    if st["fails"]:
        # confirm: the shrunk case, else the shortest failing ones
        cands = [st["minimal"][0]] + [c for _, c, _ in sorted(st["fails"], key=lambda x: x[0])][:4]
        st["confirmed"] = None
        for c in cands:
            try:
                exc = run_case(sub, c, Ctx())
            except BaseException:
                st["error"] = traceback.format_exc()[-3000:]
                continue
            if exc is not None:
                st["confirmed"] = (c, describe(exc))
                break
        if st["confirmed"] is None and st["error"] is None:
            st["error"] = "a failure did not reproduce (flaky): %s" % st["minimal"][1]
    from vlib import bands
    st["margins"] = dict(bands.MARGINS)
    bands.MARGINS.clear()
    st["nontrivial"] = sorted(st["nontrivial"])
    st["fails"] = len(st["fails"])
    st.pop("minimal")
    return st


def shard_main(pid, shard, nshards, jit, tier, seed, deadline, out, here):
    prepare_imports()
    mod = importlib.import_module("checks." + pid.lower())
    known = load_known(here)
    res = {}
    subs = [s for s in mod.SUBS if s.jit == jit]
    for i, sub in enumerate(subs):
        total = sub.thorough if tier == "thorough" else sub.quick
        n = total // nshards + (1 if (shard + i) % nshards < total % nshards else 0)
        if n == 0:
            continue
        sv = int(hashlib.sha1(("%d/%s/%s/%d" % (seed, pid, sub.name, shard)).encode()).hexdigest()[:12], 16)
        t0 = time.time()
        res[sub.name] = run_sub(sub, n, sv, deadline, known)
        res[sub.name]["wall"] = time.time() - t0
        if res[sub.name].get("confirmed") or res[sub.name]["error"]:
            break
        json.dump(res, open(out + ".tmp", "w"))
        os.replace(out + ".tmp", out)
    res["__done__"] = True
    json.dump(res, open(out + ".tmp", "w"))
    os.replace(out + ".tmp", out)
    return 0


def child_env(scratch, jit):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               MPLCONFIGDIR=os.path.join(scratch, "mpl"), OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="2",
               NUMBA_CPU_NAME="generic", TMPDIR=os.path.join(scratch, "tmp"),
               NUMBA_CACHE_DIR=os.path.join(scratch, "numba"))
    env["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
    env["NPY_DISABLE_CPU_FEATURES"] = "AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL"
    return env


def main(argv, here):
    if argv and argv[0] == "--shard":
        pid, shard, nshards, jit, tier, seed, deadline, out = argv[1:9]
        return shard_main(pid, int(shard), int(nshards), jit == "1", tier, int(seed),
                          float(deadline), out, here)
    if argv and argv[0] == "--replay-case":
        return replay_case(argv[1], argv[2], here)
    pid = argv[0].upper()
    tier = "thorough" if ("--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scratch = tempfile.mkdtemp(prefix="cupverif_")
    try:
        for d in ("mpl", "tmp", "numba", "cwd"):
            os.makedirs(os.path.join(scratch, d))
        if "--replay" in argv:
            return replay(pid, os.path.abspath(argv[argv.index("--replay") + 1]), scratch, here)
        return explore(pid, tier, seed, scratch, here)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(pid, tier, seed, scratch, here):
    t0 = time.time()
    meta = subs_meta(pid, here)
    njit = min(meta["jit"], NPROC) if meta["jit"] else 0
    nplain = (NPROC - njit if njit < NPROC else NPROC) if meta["plain"] else 0
    nplain = max(nplain, 4) if meta["plain"] else 0
    budget = 420.0 if tier == "quick" else 3600.0 * 2
    deadline = t0 + budget
    procs = []
    for jit, n in ((True, njit), (False, nplain)):
        for s in range(n):
            out = os.path.join(scratch, "out_%d_%d.json" % (jit, s))
            cwd = os.path.join(scratch, "cwd", "%d_%d" % (jit, s))
            os.makedirs(cwd)
            log = open(out + ".log", "w")
            p = subprocess.Popen([sys.executable, os.path.join(here, "run_check.py"), "--shard", pid, str(s),
                                  str(n), "1" if jit else "0", tier, str(seed), repr(deadline), out],
                                 cwd=cwd, env=child_env(scratch, jit), stdout=log, stderr=log,
                                 start_new_session=True)
            procs.append((p, out, log, jit))
    hard = deadline + 300
    for p, out, log, jit in procs:
        try:
            p.wait(timeout=max(1.0, hard - time.time()))
        except subprocess.TimeoutExpired:
            pass
        with contextlib.suppress(Exception):
            os.killpg(p.pid, 9)
        p.wait()
        log.close()
    agg, errors, confirmed, knowns = {}, [], [], {}
    for p, out, log, jit in procs:
        res = {}
        if os.path.exists(out):
            res = json.load(open(out))
        if not res.get("__done__"):
            errors.append("shard ended early (rc=%s): %s" % (p.returncode, open(out + ".log").read()[-2000:]))
        for name, r in res.items():
            if name == "__done__":
                continue
            a = agg.setdefault(name, dict(evals=0, nontrivial=set(), labels={}, samples=[], wall=0.0,
                                          truncated=False, margins={}))
            for k, v in r.get("margins", {}).items():
                a["margins"][k] = max(a["margins"].get(k, 0.0), v)
            a["evals"] += r["evals"]
            a["nontrivial"] |= set(r["nontrivial"])
            a["wall"] = max(a["wall"], r.get("wall", 0))
            a["truncated"] = a["truncated"] or r["truncated"]
            for k, v in r["labels"].items():
                a["labels"][k] = a["labels"].get(k, 0) + v
            a["samples"] = (a["samples"] + r["samples"])[:2]
            for kid, k in r["knowns"].items():
                kk = knowns.setdefault(kid, dict(count=0, detail=k["detail"]))
                kk["count"] += k["count"]
            if r.get("confirmed"):
                confirmed.append((name, r["confirmed"][0], r["confirmed"][1]))
            elif r["error"]:
                errors.append("%s: %s" % (name, r["error"]))
    ndist = sum(len(a["nontrivial"]) for a in agg.values())
    nev = sum(a["evals"] for a in agg.values())
    if not confirmed:
        for name in meta["names"]:
            if name not in agg:
                errors.append("sub-check %s did not run" % name)
            elif not agg[name]["nontrivial"]:
                errors.append("sub-check %s generated no non-trivial case (vacuous)" % name)
    samples = [dict(sub=n, case=c) for n, a in sorted(agg.items()) for c in a["samples"][:1]]
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=nev, distinct_nontrivial=ndist, rule=meta["rule"], samples=samples,
                            per_subcheck={n: dict(evaluations=a["evals"], distinct_nontrivial=len(a["nontrivial"]),
                                                  labels=a["labels"], truncated=a["truncated"],
                                                  closest_to_tolerance={k: round(v, 3) for k, v in sorted(a["margins"].items())},
                                                  wall_s=round(a["wall"], 2))
                                          for n, a in sorted(agg.items())},
                            known_findings={k: v["count"] for k, v in knowns.items()}),
              assumptions=meta["assumptions"], wall_s=round(wall, 2), violations=len(confirmed))
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    klist = load_known(here)
    for kid, k in sorted(knowns.items()):
        print("KNOWN-FINDING: property=%s %s [%s; %d cases]" % (pid, klist[kid]["what"], kid, k["count"]))
    for n, a in sorted(agg.items()):
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s%s" %
              (pid, n, a["evals"], len(a["nontrivial"]), a["wall"], " (TRUNCATED)" if a["truncated"] else ""))
    if "--margins" in sys.argv:
        for n, a in sorted(agg.items()):
            for k, v in sorted(a["margins"].items(), key=lambda x: -x[1]):
                print("   margin %.3f  %s: %s" % (v, n, k))
    if confirmed:
        confirmed.sort(key=lambda c: (c[0], len(json.dumps(c[1]))))
        os.makedirs(os.path.join(here, "replays"), exist_ok=True)
        seen = set()
        for name, case, msg in confirmed:
            if name in seen:
                continue
            seen.add(name)
            path = os.path.join(here, "replays", "%s_%s_seed%d.json" % (pid, name, seed))
            with open(path, "w") as f:
                json.dump(dict(property=pid, sub=name, case=case, message=msg), f, indent=1)
            print("  [%s] %s" % (name, msg))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        for e in errors:
            print("note (machinery): %s" % e, file=sys.stderr)
        return 1
    if errors:
        for e in errors:
            print("ERROR of the check: %s" % e, file=sys.stderr)
        return 2
    print("%s ok: %d cases, %d distinct non-trivial, %.1f s" % (pid, nev, ndist, wall))
    return 0


def subs_meta(pid, here):
    """Read the module's declarations in a child (it imports the repository)."""
    code = ("import sys,json; sys.path.insert(0,%r); from vlib import core; core.prepare_imports();"
            "import importlib; m=importlib.import_module('checks.%s');"
            "print('@@'+json.dumps(dict(rule=m.RULE, assumptions=getattr(m,'ASSUMPTIONS',[]),"
            "names=[s.name for s in m.SUBS], plain=any(not s.jit for s in m.SUBS),"
            "jit=getattr(m,'JIT_PROCS',2) if any(s.jit for s in m.SUBS) else 0)))" % (here, pid.lower()))
    env = dict(os.environ, NUMBA_DISABLE_JIT="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    r = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True)
    for line in r.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    sys.stderr.write(r.stderr[-3000:])
    raise SystemExit(2)


def replay(pid, path, scratch, here):
    d = json.load(open(path))
    r = None
    for jit in (False, True):
        p = subprocess.run([sys.executable, os.path.join(here, "run_check.py"), "--replay-case", pid, path],
                           cwd=os.path.join(scratch, "cwd"), env=child_env(scratch, jit))
        if p.returncode != 3:
            return p.returncode
    return r or 2


def replay_case(pid, path, here):
    prepare_imports()
    d = json.load(open(path))
    mod = importlib.import_module("checks." + pid.lower())
    sub = [s for s in mod.SUBS if s.name == d["sub"]][0]
    if sub.jit != (os.environ.get("NUMBA_DISABLE_JIT") == "0"):
        return 3
    ctx = Ctx()
    exc = run_case(sub, d["case"], ctx)
    for kid, detail in ctx.knowns:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, kid, detail))
    if exc is None:
        print("the case passes")
        return 0
    print(describe(exc))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def close(x, y, rtol, atol=0.0):
    return abs(x - y) <= atol + rtol * max(abs(x), abs(y))


def isfinite(x):
    return math.isfinite(x)
