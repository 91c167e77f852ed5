#!/usr/bin/env python3
"""Plants a bug: applies an edit to /repo, confirms build + stable tests + demo, stores it in seeded/<id>/, undoes the edit,
then optionally runs the property's check against it.   usage: from mkseed import seed  (see tools/seeds_*.py)"""
import fcntl, json, os, re, subprocess, sys, tempfile
REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: behaviour as stated; exit 1: broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
INC=$(find "$PWD/trunk/src" -type d | sed 's/^/-I/')
g++ -std=c++14 -O1 -w $INC -I/usr/include/eigen3 -I"$PWD/trunk/dependencies/exprtk" -I"$PWD/trunk/dependencies/rtree" -I"$PWD/trunk/dependencies" "$D/demo.cpp" -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def stable():
    t = tempfile.mktemp(suffix=".json")
    sh("bash /opt/vp/test.sh " + t)
    base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open(t)); os.remove(t)
    b = set(base["stable"])
    return sorted(b - set(got["passed"]))
def record(sid, c):
    cf = VERIF + "/tools/catches.json"
    f = re.findall(r"failed: (\S+) / ([^:]*)", c.stdout); v = re.findall(r"VIOLATION.*", c.stdout)
    with open("/tmp/catches.lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        cat = json.load(open(cf)) if os.path.exists(cf) else {}
        cat[sid] = ("Caught: " + "; ".join(sorted({"`%s` (%s)" % (a, b.strip()) for a, b in f})) + (" without failing input" if v and all("no-failing" in x for x in v) else "") + ".") if c.returncode == 1 else "Missed (exit %d)." % c.returncode
        json.dump(cat, open(cf, "w"), indent=1, sort_keys=True)
    return cat[sid]
def foreign(diff):
    "lines the patch removes that commits of ours added"
    root = sh("git -C %s rev-list --max-parents=0 HEAD" % REPO).stdout.split()[0]
    base = sh("git -C %s log --format=%%H -1 --grep='^fix:\\|^hook:' --invert-grep HEAD" % REPO).stdout.strip()
    bad = []; f = None; total = 0
    for line in diff.decode("utf8", "replace").splitlines():
        if line.startswith("--- a/"): f = line[6:].strip()
        m = re.match(r"@@ -(\d+)", line)
        if m: n = int(m.group(1)); continue
        if line.startswith(("---", "+++", "diff", "index")): continue
        if line.startswith("-"):
            total += 1
            h = sh("git -C %s blame -s -l -L %d,%d HEAD -- %s" % (REPO, n, n, f)).stdout.split()[0].lstrip("^")
            if sh("git -C %s merge-base --is-ancestor %s %s" % (REPO, h, base)).returncode: bad.append("%s:%d" % (f, n))
            n += 1
        elif line.startswith(" "): n += 1
    return bad, total
def seed(sid, prop, edits, demo, needs, breaks, check=True):
    if not isinstance(edits, list): edits = [edits]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    d = os.path.join(VERIF, "seeded", sid); os.makedirs(d, exist_ok=True)
    try:
        open(d + "/demo.cpp", "w").write(demo); open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=REPO, capture_output=True, text=True)
        if r0.returncode != 0: print(sid, "DEMO FAILS ON CLEAN:", r0.returncode, r0.stdout[-500:], r0.stderr[-1500:]); return
        for f, old, new in edits:
            p = os.path.join(REPO, "trunk/src", f); s = open(p, newline="").read()
            crlf = "\r\n" in s
            if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1: print(sid, "old text found", s.count(old), "times in", f); return
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff", "--binary"], capture_output=True).stdout
        bad, total = foreign(diff)
        if bad: print(sid, "changes lines of our own commits", bad, "of", total); return
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=REPO, capture_output=True, text=True)
        if r1.returncode == 0: print(sid, "DEMO PASSES WITH BUG"); return
        if r1.returncode == 2: print(sid, "BUG DOES NOT COMPILE", r1.stderr[-800:]); return
        miss = stable()
        if miss: print(sid, "TESTS CATCH IT:", miss[:5]); return
        open(d + "/patch.diff", "wb").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        out = ""
        if check:
            c = sh("python3 %s/check.py %s quick" % (VERIF, prop)); out = "check exit %d: %s" % (c.returncode, (c.stdout + c.stderr)[-400:])
            record(sid, c)
        print(sid, "PLANTED;", out)
    finally:
        sh("git -C /repo checkout -- .")
        if not os.path.exists(d + "/patch.diff"): sh("rm -rf " + d)

def recheck(ids=None):
    "runs the property's check against every stored seed again"
    import glob
    for m in sorted(glob.glob(VERIF + "/seeded/*/meta.json")):
        d = os.path.dirname(m); sid = os.path.basename(d)
        if ids and sid not in ids: continue
        prop = json.load(open(m))["property"]
        try:
            r = sh("git -C /repo apply %s/patch.diff" % d)
            if r.returncode: print(sid, "DOES NOT APPLY", r.stderr); continue
            c = sh("python3 %s/check.py %s quick" % (VERIF, prop))
        finally: sh("git -C /repo checkout -- .")
        print(sid, record(sid, c), flush=True)
if __name__ == "__main__": recheck(sys.argv[1:])
