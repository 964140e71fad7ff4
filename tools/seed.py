#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy and stores them in /verif/seeded.

usage: seed.py SPEC.py [ID ...]   (SPEC.py defines SEEDS = {id: dict(property, edits, demo, flags, needs, what)})
       seed.py --recheck [ID ...] (re-runs tests, demos and checks of the stored ones)
No check uses this file or the folder it writes.
"""
import json, os, re, subprocess, sys, concurrent.futures as cf
W = os.environ.get("SEED_COPY", "/tmp/w")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "3b539c6"
DEMO = '''#!/bin/bash
# Runs with the repository as working directory; everything it writes stays in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -Icommon/include -Igeometry/include -I/usr/include/eigen3 %s "$here/demo.cpp" %s -o "$t/demo" -lboost_filesystem -lboost_system || exit 2
cd "$t" && timeout 120 ./demo > out.txt 2>&1
rc=$?
tail -n 5 out.txt
exit $rc
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def clone():
    if not os.path.exists(W):
        sh("git clone -q /repo %s" % W)
    sh("git -C %s checkout -q -- . && git -C %s fetch -q origin && git -C %s reset -q --hard origin/HEAD" % (W, W, W))
    if not os.path.exists(W + "/_build/build.ninja"):
        sh("cmake -S . -B _build -G Ninja -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DFETCHCONTENT_FULLY_DISCONNECTED=ON", cwd=W)

def tests():
    r = sh("ninja -C %s/_build" % W)
    if r.returncode:
        return "BUILD " + r.stdout[-800:]
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    def one(t):
        d = "%s/_build/run/%s" % (W, t)
        os.makedirs(d, exist_ok=True)
        a = {"common/test_morton_functions": ["-test", "split"], "common/test_io": ["-dir", W + "/common/app"]}.get(t, [])
        try:
            p = subprocess.run(["%s/_build/%s" % (W, t)] + a, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=28)
            return t, p.returncode
        except subprocess.TimeoutExpired:
            return t, "timeout"
    with cf.ThreadPoolExecutor(8) as ex:
        bad = [x for x in ex.map(one, stable) if x[1] != 0]
    return "TESTS %s" % bad if bad else None

def demo(d):
    return sh("bash %s/demo.sh" % d, cwd=W)

def blame_ok(diff):
    """every removed line must come from the original commit"""
    f, ok = None, True
    for h in re.split(r"(?m)^diff --git ", diff)[1:]:
        f = re.search(r" b/(\S+)", h).group(1)
        b = sh("git -C %s blame -s HEAD -- %s" % (W, f)).stdout.splitlines()
        for m in re.finditer(r"(?m)^@@ -(\d+)(?:,(\d+))? .*\n((?:[ +\-\\].*\n?)*)", h):
            n = int(m.group(1))
            for l in m.group(3).splitlines():
                if l.startswith("-"):
                    c = b[n - 1].split()[0]
                    if not c.lstrip("^").startswith(BASE[:6]):
                        ok = False
                if not l.startswith("+") and not l.startswith("\\"):
                    n += 1
    return ok

def check(prop):
    r = sh("python3 run.py %s quick" % prop, cwd=ROOT, env=dict(os.environ, VERIF_REPO=W, VERIF_SEED="1", VERIF_TIER="quick"))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return r.returncode, (v[0] if v else (r.stdout + r.stderr)[-300:])

def process(i, s):
    d = "%s/seeded/%s" % (ROOT, i)
    clone()
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(PRE + s["demo"])
    srcs = s.get("src", "")
    open(d + "/demo.sh", "w").write(DEMO % (s.get("flags", ""), srcs))
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(d + "/meta.json", "w"), indent=1)
    r = demo(d)
    if r.returncode:
        return "demo fails on the clean tree: " + (r.stdout + r.stderr)[-1500:]
    for f, old, new in s["edits"]:
        p = "%s/%s" % (W, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "edit matches %d times: %r" % (t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = sh("git -C %s diff" % W).stdout
    open(d + "/patch.diff", "w").write(diff)
    return confirm(i, d, s["property"])

def confirm(i, d, prop):
    notes = []
    if not blame_ok(open(d + "/patch.diff").read()):
        notes.append("NOT-ORIGINAL-LINES")
    t = tests()
    if t:
        return t
    r = demo(d)
    if r.returncode == 0 or r.returncode == 2:
        return "demo does not fail (rc %d) %s" % (r.returncode, (r.stdout + r.stderr)[-500:])
    rc, v = check(prop)
    sh("git -C %s checkout -q -- ." % W)
    return "%s demo:%s check rc=%d %s" % (" ".join(notes) or "ok", r.stdout.strip()[-70:], rc, v)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--recheck":
        for i in a[1:] or sorted(os.listdir(ROOT + "/seeded")):
            d = "%s/seeded/%s" % (ROOT, i)
            clone()
            r = demo(d)
            if r.returncode:
                print(i, "demo fails clean"); continue
            r = sh("git -C %s apply %s/patch.diff" % (W, d))
            if r.returncode:
                print(i, "patch does not apply"); continue
            print(i, confirm(i, d, json.load(open(d + "/meta.json"))["property"]), flush=True)
        sys.exit()
    g = {}
    exec(open(a[0]).read(), g)
    for i, s in g["SEEDS"].items():
        if a[1:] and i not in a[1:]:
            continue
        print(i, process(i, s), flush=True)
    sh("git -C %s checkout -q -- ." % W)
