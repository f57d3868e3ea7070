#!/usr/bin/env python3
"""Writes the planted bugs of seeds_def.py to ../seeded and confirms each in a scratch copy.

usage: seed.py [ID ...]      (all if none is given)
For each: the patch applies to /repo's HEAD, builds, passes the repository's tests,
and the demonstration passes without it and fails with it.
"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
sys.path.insert(0, HERE)
from seeds_def import SEEDS, HEAD

DEMO = r'''#!/bin/bash
# run with cwd /repo; exits 0 if the code behaves, nonzero if it doesn't
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off@ARCH@
sed 's/^module .*/module demo/' "$repo/go.mod" > "$tmp/go.mod"
printf 'replace github.com/romshark/jscan-experimental-decoder => %s\nrequire github.com/romshark/jscan-experimental-decoder v0.0.0\n' "$repo" >> "$tmp/go.mod"
cp "$repo/go.sum" "$tmp/go.sum"
cp "$here/main.go" "$tmp/main.go"
cd "$tmp" && /usr/lib/go-1.21/bin/go build -buildvcs=false@RACE@ -o "$tmp/demo" . && timeout 120 "$tmp/demo"
'''

def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ, HOME="/root", GOPATH="/root/go", GOCACHE="/root/.cache/go-build",
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
    if env: e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr

def tests(wt):
    stable = json.load(open("/opt/vp/BASELINE.json"))
    src = open(f"{wt}/jscandec_test.go").read()
    work = tempfile.mkdtemp()
    open(f"{work}/t.go", "w").write(re.sub(r"(?m)^//go:embed testdata/array_2d_bool_6m\.json$", "//", src))
    json.dump({"Replace": {f"{wt}/jscandec_test.go": f"{work}/t.go"}}, open(f"{work}/o.json", "w"))
    rc, out = sh(["/usr/lib/go-1.21/bin/go", "test", "-vet=off", "-count=1", "-timeout", "5m", "-overlay", f"{work}/o.json",
                  "-skip", "^TestDecode2DSliceBool$/^array_2d_bool_6m$", "./..."], cwd=wt)
    shutil.rmtree(work)
    return rc, out

def main():
    ids = sys.argv[1:]
    os.makedirs(OUT, exist_ok=True)
    for s in SEEDS:
        if ids and s["id"] not in ids: continue
        wt = "/tmp/seedwt"
        shutil.rmtree(wt, ignore_errors=True)
        shutil.copytree("/repo", wt, symlinks=True)
        sh(["git", "checkout", "-q", "--", "."], cwd=wt)
        ok = True
        for e in s["edits"]:
            f, old, new = e[:3]
            p = f"{wt}/{f}"
            t = open(p).read()
            n = t.count(old)
            want = e[3] if len(e) > 3 else None   # occurrence number (1-based) or None for unique
            if want is None and n != 1:
                print(s["id"], "EDIT: %d occurrences of %r" % (n, old[:80])); ok = False; break
            if want is None or want == 1: t = t.replace(old, new, 1)
            else:
                parts = t.split(old)
                t = old.join(parts[:want]) + new + old.join(parts[want:])
            open(p, "w").write(t)
        if not ok: continue
        _, diff = sh(["git", "diff"], cwd=wt)
        fmtrc, fmt = sh("/usr/lib/go-1.21/bin/gofmt -l *.go internal/atoi/*.go internal/jsonnum/*.go internal/unescape/*.go", cwd=wt)
        d = f"{OUT}/{s['id']}"
        os.makedirs(d, exist_ok=True)
        main_go = HEAD.replace("@IMPORTS@", "".join('\t"%s"\n' % i for i in s.get("imports", []))) + s["main"].strip("\n") + "\n"
        open(f"{d}/main.go", "w").write(main_go)
        sh(["/usr/lib/go-1.21/bin/gofmt", "-w", f"{d}/main.go"])
        open(f"{d}/demo.sh", "w").write(DEMO.replace("@RACE@", " -race" if s.get("race") else "").replace("@ARCH@", " GOARCH=" + s["goarch"] if s.get("goarch") else ""))
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(f"{d}/meta.json", "w"), indent=1)
        rc, out = sh(["bash", f"{d}/demo.sh"], cwd=wt)
        res = []
        if rc == 0: res.append("DEMO PASSES WITH THE PATCH")
        patched = out
        trc, tout = tests(wt)
        if trc != 0: res.append("TESTS FAIL: " + "\n".join(l for l in tout.splitlines() if "FAIL" in l or ".go:" in l)[:600])
        sh(["git", "checkout", "-q", "--", "."], cwd=wt)
        rc, out = sh(["bash", f"{d}/demo.sh"], cwd=wt)
        if rc != 0: res.append("DEMO FAILS WITHOUT: " + out[:600])
        if fmt.strip(): res.append("gofmt: " + fmt.strip())
        print(s["id"], s["property"], "ok" if not res else "BAD " + "; ".join(res), "|", patched.strip().splitlines()[0][:150] if patched.strip() else "", flush=True)
        if res:
            shutil.rmtree(d)
        shutil.rmtree(wt, ignore_errors=True)

main()
