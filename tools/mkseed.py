#!/usr/bin/env python3
"""mkseed.py [id...]: makes /verif/seeded/<id> from tools/seeds/*.py in a scratch copy, keeping only changes that
compile, pass the stable tests and make their demonstration fail; with --check also runs the property's check."""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = os.environ.get("SW", "/tmp/sw")
BASE = "44be27f"
seeds = {}
def seed(id, prop, edits, needs, what, demo, asan=False):
    assert id not in seeds
    seeds[id] = dict(prop=prop, edits=edits, needs=needs, what=what, demo=demo, asan=asan)
TSAN = "tsan"
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"))
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# run in the repository after its build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export TMPDIR="$t"
%s || { echo "demonstration does not compile"; exit 3; }
timeout -k 5 100 "$t/demo"
'''
PLAIN = 'g++ -std=c++17 -g -pthread -I src "$d/demo.cpp" -o "$t/demo" -L _build -ldbus-asio -Wl,-rpath,"$PWD/_build" -lboost_thread -lboost_system -lboost_chrono'
ASAN = '''printf '%s\\n' src/*.cpp "$d/demo.cpp" | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -g -O0 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr,alignment -pthread -I src -c "{}" -o "$TMPDIR/$(basename "{}").o"' &&
g++ -fsanitize=address,undefined -pthread "$t"/*.o -o "$t/demo" -lboost_thread -lboost_system -lboost_chrono'''
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def tests():
    r = SW + "/_build/vp-reports"
    shutil.rmtree(r, ignore_errors=True); os.makedirs(r)
    sh("timeout 300 python3 /opt/vp/run_catch.py %s/_build %s" % (SW, r))
    sh('python3 /opt/vp/results.py /tmp/sw.json "junit:%s/*.xml" "lines:%s/lines.txt"' % (r, r))
    return set(stable) - set(json.load(open("/tmp/sw.json"))["passed"])
def build():
    return sh("cd %s && ninja -C _build dbus-asio tests/all dbus-test" % SW)
def one(id, check):
    s = seeds[id]
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (SW, SW, SW))
    d = V + "/seeded/" + id
    tmp = "/tmp/seed-" + id
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    shutil.copy(V + "/tools/seeds/demo.h", tmp)
    open(tmp + "/demo.cpp", "w").write('#include "demo.h"\n' + s["demo"].strip() + "\n")
    open(tmp + "/demo.sh", "w").write(DEMO % (ASAN.replace('address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr,alignment', 'thread').replace('address,undefined', 'thread') if s["asan"] == TSAN else ASAN if s["asan"] else PLAIN))
    os.chmod(tmp + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(tmp + "/meta.json", "w"), indent=1)
    b = build()
    if b.returncode: return "clean build failed"
    r = sh("cd %s && bash %s/demo.sh" % (SW, tmp))
    if r.returncode: return "demo fails on the clean tree: " + r.stdout[-700:]
    for f, a, n in s["edits"]:
        p = SW + "/src/" + f
        t = open(p).read()
        if t.count(a) != 1: return "edit: %d occurrences of %r" % (t.count(a), a[:60])
        open(p, "w").write(t.replace(a, n))
    diff = sh("git -C %s diff" % SW).stdout
    open(tmp + "/patch.diff", "w").write(diff)
    # removed lines are lines of the original repository
    orig = notorig = 0
    for f in sorted(set(e[0] for e in s["edits"])):
        bl = sh("git -C %s blame -s HEAD -- src/%s" % (SW, f)).stdout.split("\n")
        old = 0
        for l in sh("git -C %s diff -U0 -- src/%s" % (SW, f)).stdout.split("\n"):
            if l.startswith("@@"):
                old = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-") and not l.startswith("---"):
                x = bl[old - 1]; old += 1
                if BASE in x.split()[0]: orig += 1
                elif l[1:].strip() not in ("", "{", "}"): notorig += 1
    b = build()
    if b.returncode: return "does not compile: " + b.stdout[-600:]
    bad = tests()
    if bad: return "tests fail: %s" % sorted(bad)[:3]
    r = sh("cd %s && bash %s/demo.sh" % (SW, tmp))
    if r.returncode == 0: return "demo passes with the change"
    if r.returncode == 3: return "demo does not compile with the change: " + r.stdout[-500:]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(V + "/seeded", exist_ok=True)
    shutil.move(tmp, d)
    res = "ok (original lines %d, others %d) demo: %s" % (orig, notorig, r.stdout.strip()[-160:].replace("\n", " | "))
    if not orig or notorig: res += "  ** NOT ORIGINAL LINES"
    if check:
        for prop in ([s["prop"]] if check == 1 else check):
            c = sh("cd %s && VERIF_REPO=%s timeout 900 python3 check.py %s --tier quick" % (V, SW, prop))
            v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
            res += "\n    check %s: exit %d %s" % (prop, c.returncode, v[0][:150] if v else c.stdout[-300:])
    return res
if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(seeds)
    check = 1 if "--check" in sys.argv else 0
    for i in ids:
        print(i, "::", one(i, check), flush=True)
    sh("git -C %s checkout -q -- ." % SW)
