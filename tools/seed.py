#!/usr/bin/env python3
"""Authoring helper for /verif/seeded (used by no check).

seed(id, prop, edits, needs, breaks, main) writes the folder; verify(ids)
confirms build, demo on both trees, stable tests, and runs the property's
check against the mutated scratch copy.
"""
import json, os, re, shutil, subprocess, sys
V = os.environ.get("SEED_VERIF", "/verif"); R = os.environ.get("SEED_REPO", "/repo"); M = "/tmp/mut/seed"
DEMO = '''#!/bin/bash
# Exit 0 if the behaviour is right, 1 otherwise. Run in the repository's root.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=
cp go.mod "$T/go.mod" && cp "$D/go.sum.txt" "$T/go.sum" || exit 3
echo "{\\"Replace\\":{\\"$PWD/zzdemo/main.go\\":\\"$D/main.go.txt\\"}}" > "$T/o.json"
timeout 250 go run -mod=mod -modfile="$T/go.mod" -overlay "$T/o.json" ./zzdemo
'''
def sh(cmd, cwd=None, env=None, t=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def fresh():
    if os.path.isdir(M): shutil.rmtree(M)
    os.makedirs("/tmp/mut", exist_ok=True)
    sh("cp -a %s %s && cd %s && git checkout -q -- . && git clean -fdq" % (R, M, M))
def seed(id, prop, edits, needs, breaks, main):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    fresh()
    for f, old, new in edits:
        p = os.path.join(M, f); s = open(p).read()
        if s.count(old) != 1: print(id, f, "occurrences:", s.count(old)); return False
        open(p, "w").write(s.replace(old, new))
    rc, diff = sh("git diff", cwd=M)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.go.txt", "w").write(main)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(V + "/gomod/fast-ksw.sum", d + "/go.sum.txt")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    return True
def stable(cwd):
    env = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -modfile=/tmp/mut/m.mod")
    shutil.copy(cwd + "/go.mod", "/tmp/mut/m.mod"); shutil.copy(V + "/gomod/fast-ksw.sum", "/tmp/mut/m.sum")
    rc, o = sh("go build ./... && (go test -json -vet=off -count=1 ./ckks/... ./frlwe/... ./ring/... ./rlwe/... ./utils/... > /tmp/mut/t1.json 2>/dev/null & go test -json -vet=off -count=1 ./ring -args -long > /tmp/mut/t2.json 2>/dev/null & wait); python3 /opt/vp/results.py /tmp/mut/res.json gojson:/tmp/mut/t1.json gojson:/tmp/mut/t2.json", cwd=cwd, env=env)
    try: r = json.load(open("/tmp/mut/res.json"))
    except Exception: return False, o[-300:]
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]; ok = set(r["passed"])
    miss = [x for x in st if x not in ok]
    return not miss, "%d stable tests fail %s" % (len(miss), miss[:2])
def verify(ids=None, tests=True, check=True, tier="quick"):
    for id in sorted(ids or os.listdir(V + "/seeded")):
        d = os.path.join(V, "seeded", id); prop = json.load(open(d + "/meta.json"))["property"]
        fresh()
        rc0, o0 = sh("bash %s/demo.sh" % d, cwd=M)
        rc, o = sh("git apply %s/patch.diff" % d, cwd=M)
        if rc: print(id, "DOES NOT APPLY", o); continue
        rc1, o1 = sh("bash %s/demo.sh" % d, cwd=M)
        t = stable(M) if tests else ("?", "")
        c = "-"
        if check:
            rc2, o2 = sh("bin/gosym check -prop %s -tier %s -repo %s" % (prop, tier, M), cwd=V)
            c = "CAUGHT " + " ".join(re.findall(r"reproduced natively: (.*)", o2)[:1]) if rc2 == 1 and "VIOLATION" in o2 else "MISSED rc=%d %s" % (rc2, o2[-300:])
        print(id, prop, "demo clean=%d patched=%d%s" % (rc0, rc1, "" if rc0 == 0 and rc1 else "  <<<<<< " + (o0 + o1)[-300:]), "tests:", t[0] if t[0] is True else t, "|", c, flush=True)
if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    verify(a or None, tests="-notests" not in sys.argv, check="-nocheck" not in sys.argv)
