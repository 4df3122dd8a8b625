#!/usr/bin/env python3
"""mkseed.py SPEC.py [--nocheck]: makes and validates a planted change /verif/seeded/<id>/ from a spec with
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], PKG, TEST (Go test file, its test is TestDemo)."""
import atexit, sys, os, json, subprocess, shutil
V = os.environ.get("SEEDV", "/verif")
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID, PKG = spec["ID"], spec["PKG"]
env = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1", GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod")
W = "/tmp/seed-w%d" % os.getpid()
shutil.rmtree(W, ignore_errors=True)
subprocess.run(["cp", "-a", os.environ.get("SEEDR", "/repo"), W], check=True)
subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W, check=True)
for f, a, b in spec["EDITS"]:
    s = open(W + "/" + f).read()
    if s.count(a) != 1:
        sys.exit("edit of %s: old text found %d times" % (f, s.count(a)))
    open(W + "/" + f, "w").write(s.replace(a, b))
    subprocess.run(["gofmt", "-l", f], cwd=W, env=env)
D = V + "/seeded/" + ID
os.makedirs(D, exist_ok=True)
done = []
atexit.register(lambda: done or shutil.rmtree(D, ignore_errors=True))
patch = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
open(D + "/patch.diff", "w").write(patch)
open(D + "/demo_test.go", "w").write(spec["TEST"].lstrip())
open(D + "/demo.sh", "w").write('''#!/bin/bash
# Runs demo_test.go (beside this file) as a test of the package it is for: exit 0 if the property holds.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T
echo "{\\"Replace\\": {\\"$PWD/%s/zz_demo_test.go\\": \\"$D/demo_test.go\\"}}" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run '^TestDemo$' ./%s
''' % (PKG, PKG))
json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(D + "/meta.json", "w"), indent=1)
r = subprocess.run(["go", "build", "./..."], cwd=W, env=env, capture_output=True, text=True)
if r.returncode: sys.exit("build: " + r.stderr)
def demo(cwd):
    r = subprocess.run(["bash", D + "/demo.sh"], cwd=cwd, capture_output=True, text=True)
    return r.returncode, r.stdout[-1500:] + r.stderr[-500:]
rc, o = demo(os.environ.get("SEEDR", "/repo"))
if rc: shutil.rmtree(W); sys.exit("demo fails on the unchanged tree\n" + o)
rc, o = demo(W)
if not rc: shutil.rmtree(W); sys.exit("demo passes with the change")
print("demo fails with the change:", o[:600])
pk = [p for p in subprocess.run(["go", "list", "-e", "./..."], cwd=W, env=env, capture_output=True, text=True).stdout.split() if not p.endswith(("golibs/timeout", "storage/postgres"))]
r = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1"] + pk, cwd=W, env=env, capture_output=True, text=True)
passed = set()
for l in r.stdout.splitlines():
    try: e = json.loads(l)
    except ValueError: continue
    if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed
if miss: shutil.rmtree(W); sys.exit("stable tests fail: %s" % sorted(miss)[:10])
done.append(1)
if "--nocheck" in sys.argv:
    shutil.rmtree(W)
    sys.exit(0)
r = subprocess.run([V + "/bin/gosym", "-verif", V, "-repo", W, "-prop", spec["PROP"], "-tier", "quick"], cwd=V, capture_output=True, text=True)
shutil.rmtree(W)
print("CHECK", ID, spec["PROP"], "exit", r.returncode, "\n".join(l[:300] for l in r.stdout.splitlines() if "VIOLATION" in l or "NOTE" in l or l.startswith("   ") and ": " in l)[:1500])
