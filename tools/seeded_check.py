"""Each seeded patch applies to /repo's HEAD and removes only lines of the original repository (git blame): prints the others."""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
base = set(subprocess.check_output(["git", "-C", "/repo", "rev-list", sys.argv[1] if len(sys.argv) > 1 else "2c7a244"], text=True).split())
for b in sorted(os.listdir(HERE + "/seeded")):
    p = "%s/seeded/%s/patch.diff" % (HERE, b)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", p], capture_output=True, text=True)
    if r.returncode:
        print(b, "does not apply:", r.stderr.strip()[:150]); continue
    f, n, mine, orig = None, 0, 0, 0
    for l in open(p, errors="replace", newline=""):
        if l.startswith("--- a/"): f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if f and l[:1] == "-" and not l.startswith("---"):
            c = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-s", "-L", "%d,%d" % (n, n), f], text=True).split()[0].lstrip("^")
            if any(x.startswith(c) for x in base): orig += 1
            else: mine += 1
            n += 1
        elif l[:1] == " ": n += 1
    if mine or not orig: print(b, "lines of fixes:", mine, "original:", orig)
