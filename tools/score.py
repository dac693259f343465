"""Run checks against planted bugs in scratch copies: python3 tools/score.py [-j N] [--seed S] [--all-checks] [id ...]
For each id: a copy of /repo with the patch and a copy of /verif whose core.REPO names that copy, under /tmp; the property's quick check
must exit 1 with its VIOLATION line. Prints one line per bug. (Development only: the registered checks always run against /repo.)"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(bug, seed, allc):
    d = "/tmp/score/%s" % bug
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        if bug != "none":
            subprocess.check_call(["git", "-C", d + "/repo", "apply", "%s/seeded/%s/patch.diff" % (HERE, bug)])
        shutil.copytree(HERE, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        p = d + "/verif/vlib/core.py"
        s = open(p).read().replace('REPO = "/repo"', 'REPO = "%s/repo"' % d)
        open(p, "w").write(s)
        pid = json.load(open("%s/seeded/%s/meta.json" % (HERE, bug)))["property"] if bug != "none" else None
        pids = [pid] if not allc else sorted(x[:3].upper() for x in os.listdir(HERE + "/checks") if x.startswith("p") and x.endswith(".py"))
        out = []
        for pid in pids:
            t = time.time()
            r = subprocess.run(["/opt/venv/bin/python", "run_check.py", pid], cwd=d + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER="quick"))
            txt = r.stdout.decode(errors="replace")
            hit = r.returncode == 1 and "VIOLATION property=%s" % pid in txt
            why = [l.strip() for l in txt.splitlines() if l.strip()]
            out.append("%s %s %s rc=%d %.0fs %s" % (bug, pid, "CAUGHT" if hit else "quiet" if r.returncode == 0 else "BROKEN", r.returncode, time.time() - t,
                                                  " | ".join(why[-3:])[:400] if r.returncode else ""))
        return "\n".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


a = sys.argv[1:]
j, seed, allc = 1, 1, "--all-checks" in a
a = [x for x in a if x != "--all-checks"]
if "-j" in a:
    i = a.index("-j"); j = int(a[i + 1]); del a[i:i + 2]
if "--seed" in a:
    i = a.index("--seed"); seed = int(a[i + 1]); del a[i:i + 2]
ids = a or sorted(os.listdir(HERE + "/seeded"))
with ThreadPoolExecutor(j) as ex:
    for line in ex.map(lambda b: one(b, seed, allc), ids):
        print(line, flush=True)
