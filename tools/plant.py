#!/usr/bin/env python3
"""plant(id, prop, pkg, edits, demo, needs, breaks): makes /verif/seeded/<id> from
edits to a scratch copy of /repo, after confirming that the changed copy builds,
passes the stable tests, that the demonstration fails on it and passes on /repo.
edits: list of (file, old, new). demo: Go test source for package dir pkg."""
import json, os, shutil, subprocess, sys, tempfile
REPO = "/repo"
SCRATCH = "/tmp/plant/repo"
DEMO = '''#!/bin/bash
# Runs the in-package demonstration beside this script against ./{pkg} of the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME="${{HOME:-/root}}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
printf '{{"Replace": {{"%s": "%s"}}}}\\n' "$PWD/{pkg}/zz_demo_test.go" "$tmp/zz_demo_test.go" > "$tmp/overlay.json"
timeout 200 go test {flags}-count=1 -timeout 120s -vet=off -overlay "$tmp/overlay.json" -run '^TestZZDemo' ./{pkg}
'''
def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)
ENV = "export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off; "
def fresh():
    os.makedirs("/tmp/plant", exist_ok=True)
    if os.path.exists(SCRATCH): shutil.rmtree(SCRATCH)
    subprocess.check_call(["cp", "-a", REPO, SCRATCH])
def stable_ok(dirn):
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = sh(ENV + "go test -count=1 ./... 2>&1 | tail -60", dirn)
    return ("FAIL" not in r.stdout), r.stdout
def plant(id, prop, pkg, edits, demo, needs, breaks, race=False, props=None):
    fresh()
    for f, old, new in edits:
        p = os.path.join(SCRATCH, f); s = open(p).read()
        if s.count(old) != 1:
            print(id, "EDIT does not match once:", f, s.count(old), repr(old)); return False
        open(p, "w").write(s.replace(old, new))
    r = sh(ENV + "go build ./... ", SCRATCH)
    if r.returncode: print(id, "does not build", r.stderr[-2000:]); return False
    if r.stdout.strip(): print(id, "gofmt:", r.stdout)
    ok, out = stable_ok(SCRATCH)
    if not ok: print(id, "TESTS CATCH IT", "\n".join(l for l in out.splitlines() if "FAIL" in l or "Error" in l)[:1500]); return False
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    diff = sh("git diff", SCRATCH).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_test.go.txt", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO.format(pkg=pkg, flags="-race " if race else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    a = sh(d + "/demo.sh", REPO); b = sh(d + "/demo.sh", SCRATCH)
    if a.returncode != 0: print(id, "DEMO FAILS ON /repo", (a.stdout+a.stderr)[-2500:]); return False
    if b.returncode == 0: print(id, "DEMO PASSES ON BUG", b.stdout[-800:]); return False
    if "build failed" in b.stdout or "build failed" in a.stdout: print(id, "demo build failed", b.stdout); return False
    c = sh(f"/verif/.bin/checker -repo {SCRATCH} -verif /tmp/plant " + " ".join(props or [prop]), "/verif")
    caught = f"VIOLATION property={prop} " in c.stdout
    print(id, prop, "CAUGHT" if caught else "MISSED")
    print("   ", "\n    ".join(l[:300] for l in c.stdout.splitlines() if l.startswith("  "))[:900])
    return caught
os.makedirs("/tmp/plant", exist_ok=True)
if not os.path.exists("/tmp/plant/known_findings.txt"): shutil.copy("/verif/known_findings.txt", "/tmp/plant/known_findings.txt")
