#!/usr/bin/env python3
"""Validates a planted change and writes /verif/seeded/<id>.

usage: plant.py [--check] SPEC.py...   each SPEC defines id, property, edits [(file, old, new)], pkg, demo (Go test source with TestDemo),
needs, breaks.  With --check the property's check is run against the changed copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, PATH="/opt/veriftools/go1.25.14/bin:/usr/local/bin:/usr/bin:/bin", GOFLAGS="-mod=mod -buildvcs=false",
           GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off")
DEMO = '''#!/bin/bash
# Runs the demonstration as an in-package test (through an overlay) of the working tree in the current directory.
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOFLAGS='-mod=mod -buildvcs=false' GOTOOLCHAIN=local GOPROXY=off GOWORK=off TMPDIR="$t"
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" >"$t/overlay.json"
cd %s && go test -overlay "$t/overlay.json" -run '^TestDemo$' -count=1 -timeout 120s .
'''
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
# the tests listen on a fixed port
TESTS = ["unshare", "-Urn", "sh", "-c", "ip link set lo up; exec go test -timeout 100s ./..."]
def plant(path, check):
    ns = {}
    exec(open(path).read(), ns)
    id = ns["id"]
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        repo = tmp + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        run(["git", "checkout", "-q", "--", "."], repo)
        for f, old, new in ns["edits"]:
            s = open(repo + "/" + f).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(repo + "/" + f, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], repo).stdout
        out = "/verif/seeded/" + id
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo_test.go", "w").write(ns["demo"])
        pk = ns["pkg"]
        open(out + "/demo.sh", "w").write(DEMO % (pk, pk))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=ns["property"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(out + "/meta.json", "w"), indent=1)
        r = run(["go", "build", "./..."], repo)
        if r.returncode: print(id, "BUILD FAILS", r.stdout[-800:]); return
        r = run(TESTS, repo)
        if r.returncode: r = run(TESTS, repo) # a test compares the current second
        if r.returncode: print(id, "TESTS FAIL", r.stdout[-1500:]); return
        run(["git", "checkout", "-q", "--", "."], repo)
        r = run([out + "/demo.sh"], repo)
        if r.returncode: print(id, "DEMO FAILS UNPATCHED", r.stdout[-1500:]); return
        r = run(["git", "apply", out + "/patch.diff"], repo)
        assert r.returncode == 0, r.stdout
        r = run([out + "/demo.sh"], repo)
        if r.returncode == 0: print(id, "DEMO PASSES PATCHED"); return
        print(id, "ok; demo:", [l for l in r.stdout.splitlines() if "demo_test" in l or "panic" in l or "DATA RACE" in l][:1], flush=True)
        if check:
            v = tmp + "/verif"
            os.makedirs(v + "/evidence")
            shutil.copytree("/verif/harness", v + "/harness")
            shutil.copy("/verif/run.sh", v); shutil.copy("/verif/known-findings.txt", v)
            g = open(v + "/harness/go.mod").read()
            open(v + "/harness/go.mod", "w").write(g.replace("=> /repo", "=> " + repo))
            r = run([v + "/run.sh", ns["property"]], v)
            l = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(id, "CAUGHT" if r.returncode == 1 and l else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:]), l[:1], flush=True)
    finally:
        shutil.rmtree(tmp)
check = "--check" in sys.argv
for p in sys.argv[1:]:
    if p != "--check": plant(p, check)
