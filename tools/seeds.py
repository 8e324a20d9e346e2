#!/usr/bin/env python3
"""Planted bugs. seeds.py writes /verif/seeded/<id>/ from the table below (patch against /repo's HEAD);
   seeds.py --verify ID... confirms, in a scratch copy bound over /repo in a private mount namespace, that the bug builds,
   passes the stable tests, and that its demonstration passes without and fails with it."""
import subprocess, sys, os, json, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SEEDS = {}
PRE = r'''
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <vector>
#include <string>
#include <sstream>
#include "src/spaceHub.hpp"
using namespace hub;
using DT = Types<double, Vec3>;
using PP = particles::PointParticles<DT>;
using Pt = PP::Particle;
using V3 = Vec3<double>;
static int bad = 0;
static void near(double a, double b, const char* what, double tol = 1e-9) {
    if (!(std::fabs(a - b) <= tol * (1 + std::fabs(b)))) { std::printf("%s: got %.17g expected %.17g\n", what, a, b); bad = 1; }
}
static void check(bool c, const char* what) { if (!c) { std::printf("%s: wrong\n", what); bad = 1; } }
static void near3(V3 const& a, V3 const& b, const char* what, double tol = 1e-9) { near(a.x, b.x, what, tol); near(a.y, b.y, what, tol); near(a.z, b.z, what, tol); }
static std::vector<Pt> line(std::vector<double> xs) {   // bodies near a line, so that the chain order is the order of xs
    std::vector<Pt> ps;
    for (size_t i = 0; i < xs.size(); i++) ps.emplace_back(Pt(1 + 0.5 * i, V3(xs[i], 0.1 * i, -0.05 * i * i), V3(0.01 * i * i, 0.3 - 0.1 * i, 0.02 * i)));
    return ps;
}
'''
def seed(id, prop, edits, needs, breaks, demo, pre=PRE):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=pre + demo)

exec(open(os.path.join(HERE, "seed_table.py")).read())

DEMO_SH = '''#!/bin/bash
# builds the program beside this file against the working tree and runs it; exit 0: the property holds
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -fno-access-control -pthread -I"$PWD" "$D/demo.cpp" -o "$T/demo" || exit 3
cd "$T" || exit 2
timeout 120 ./demo
'''
def write(id):
    s = SEEDS[id]
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed")
    patch = ""
    files = {}
    for f, old, new in s["edits"]:
        if f not in files:
            files[f] = open("/repo/" + f).read()
        c = files[f].count(old)
        if c < 1:
            sys.exit(f"{id}: text not found in {f}: {old[:80]!r}")
        if c > 1:
            sys.exit(f"{id}: text occurs {c} times in {f}: {old[:80]!r}")
        files[f] = files[f].replace(old, new)
    for f, txt in files.items():
        os.makedirs(os.path.join(t, "b", os.path.dirname(f)), exist_ok=True)
        os.makedirs(os.path.join(t, "a", os.path.dirname(f)), exist_ok=True)
        open(os.path.join(t, "b", f), "w").write(txt)
        shutil.copy("/repo/" + f, os.path.join(t, "a", f))
        p = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "a/" + f, "b/" + f], cwd=t, capture_output=True, text=True).stdout
        patch += f"diff --git a/{f} b/{f}\n" + p
    shutil.rmtree(t)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")]).returncode:
        sys.exit(f"{id}: patch does not apply")
def verify(id, tests=True):
    d = os.path.join(OUT, id)
    w = f"/tmp/sd.{id}"
    script = f'''
set -e
rm -rf {w}; mkdir -p {w}; cp -a /repo {w}/repo; mount --bind {w}/repo /repo; cd /repo
bash {d}/demo.sh > {w}/demo0.log 2>&1 && echo demo-clean-ok || echo DEMO-CLEAN-FAILS
git apply {d}/patch.diff
set +e
timeout 200 bash {d}/demo.sh > {w}/demo1.log 2>&1; r=$?
[ $r = 0 ] && echo DEMO-PATCHED-PASSES || echo demo-patched-exit-$r: $(tail -1 {w}/demo1.log)
'''
    if tests:
        script += f'''
bash /opt/vp/build.sh > {w}/build.log 2>&1 || echo BUILD-FAILS
bash /opt/vp/test.sh {w}/t.json > {w}/test.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); r=json.load(open("{w}/t.json"))
m=b-set(r["passed"]); print("tests-ok" if not m else "TESTS-FAIL "+str(sorted(m))[:300])
P
'''
    p = subprocess.run(["unshare", "-m", "bash", "-c", script], capture_output=True, text=True)
    print(id, " ".join(p.stdout.split("\n")), p.stderr[-200:], flush=True)
    shutil.rmtree(w, ignore_errors=True)
def check(id, tier="quick"):
    d = os.path.join(OUT, id)
    w = f"/tmp/sc.{id}"
    prop = SEEDS[id]["prop"]
    script = f"""
set -e
rm -rf {w}; mkdir -p {w}; cp -a /repo {w}/repo; cp -a /verif {w}/verif; mount --bind {w}/repo /repo; mount --bind {w}/verif /verif; cd /repo
git apply /verif/seeded/{id}/patch.diff
cd /verif
set +e
python3 check.py {prop} --tier {tier} > {w}/log 2>&1; echo exit $?
grep -E "^(VIOLATION|INCONCL|NOT-REP)" {w}/log | head -3
"""
    p = subprocess.run(["unshare", "-m", "bash", "-c", script], capture_output=True, text=True)
    print("CHECK", id, prop, " ".join(p.stdout.split("\n"))[:400], p.stderr[-200:], flush=True)
    shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] in ("--check", "--check-thorough"):
        for i in a[1:]:
            write(i); check(i, "thorough" if a[0] == "--check-thorough" else "quick")
        sys.exit(0)
    if a and a[0] in ("--verify", "--demo"):
        for i in a[1:]:
            write(i); verify(i, a[0] == "--verify")
    else:
        for i in (a or SEEDS):
            write(i)
