#!/usr/bin/env python3
"""mkbug.py ID PROP PKG FILE: build /verif/seeded/ID from a scratch worktree.
stdin: JSON {"edits":[{"file":..,"old":..,"new":..}], "demo": go test source (package clause included), "pkg": dir, "race":bool,
"needs":..., "what_it_breaks":..., "property":..., "id":...}. Verifies: builds, tests pass, demo 0 without / nonzero with."""
import json, os, subprocess, sys, shutil, tempfile
spec = json.load(sys.stdin) if len(sys.argv) < 2 else None
if spec is None:
    g = {}
    exec(open(sys.argv[1]).read(), g)
    spec = g["spec"]
bid = spec["id"]
out = f"/verif/seeded/{bid}"
os.makedirs(out, exist_ok=True)
w = tempfile.mkdtemp(prefix="bug_")
repo = os.path.join(w, "repo")
subprocess.check_call(["cp", "-a", "/repo", repo])
try:
    for e in spec["edits"]:
        p = os.path.join(repo, e["file"])
        s = open(p).read()
        assert s.count(e["old"]) == e.get("count", 1), (e["file"], s.count(e["old"]), e["old"])
        open(p, "w").write(s.replace(e["old"], e["new"]))
    d = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
    open(out + "/patch.diff", "w").write(d)
    open(out + "/demo.go.txt", "w").write(spec["demo"])
    open(out + "/demo.sh", "w").write(f'''#!/bin/bash
# exit 0: the property holds on the demonstrated case; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${{HOME:-/root}} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
python3 - "$PWD" "$d" "$t" <<'PY'
import json, os, sys
repo, d, t = sys.argv[1:]
pkg = os.path.join(repo, {spec["pkg"]!r})
ov = {{os.path.join(pkg, f): "" for f in os.listdir(pkg) if f.endswith("_test.go")}}
ov[os.path.join(pkg, "zz_demo_test.go")] = os.path.join(d, "demo.go.txt")
json.dump({{"Replace": ov}}, open(os.path.join(t, "o.json"), "w"))
PY
timeout 250 go test -vet=off -overlay "$t/o.json" -count=1 -timeout {spec.get("timeout", "60s")} -run TestDemo ./{spec["pkg"]}
''')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what_it_breaks"]},
              open(out + "/meta.json", "w"), indent=1)
    def run(cmd, cwd): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r0 = run(["bash", out + "/demo.sh"], "/repo")
    r1 = run(["bash", out + "/demo.sh"], repo)
    env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="0")
    rb = subprocess.run(["go", "build", "./..."], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    rt = subprocess.run(["go", "test", "./common/crypto/...", "./common/db/...", "./common/errors/...", "./common/intconv/...", "./common/mbt/...", "./common/mta/..."], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    print("unchanged", r0.returncode, "patched", r1.returncode, "build", rb.returncode, "test", rt.returncode)
    if r0.returncode: print(r0.stdout[-2000:])
    if r1.returncode == 0: print(r1.stdout[-2000:])
    else: print(r1.stdout[:400])
    if rb.returncode: print(rb.stdout[-2000:])
    if rt.returncode: print("\n".join(l for l in rt.stdout.splitlines() if "FAIL" in l)[:1500])
finally:
    shutil.rmtree(w)
