#!/usr/bin/env python3
"""mkseed.py DEF.py...: makes /verif/seeded/<id>/ from definitions and confirms each one:
builds, stable tests pass, demo passes without and fails with the change; then runs the
property's check against it. DEF.py defines SEEDS = [dict(id, property, needs, breaks,
edits=[(file, old, new)], pkg, test)].  --check-only: only run the checks on existing seeds."""
import json, os, pathlib, re, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
R = "/repo"
ENV = dict(os.environ, PATH="/usr/local/go/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", TZ="UTC")
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
export PATH=/usr/local/go/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod TZ=UTC
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"/repo/%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' '@PKG@' "$here" > "$t/o.json"
cd /repo && go test -vet=off -count=1 -overlay "$t/o.json" -run '^TestDemo' './@PKG@'
'''

def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)

def clean():
    sh("git", "-C", R, "checkout", "--", ".")

def passed():
    sh("bash", "/opt/vp/test.sh", "/tmp/ms.json")
    d = json.load(open("/tmp/ms.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    key = next(k for k in ("passed", "pass", "tests", "stable") if k in b)
    return sorted(set(b[key]) - set(d["passed"]))

def check(prop):
    r = sh("python3", "run.py", prop, "--tier", "quick", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    caught = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
    return caught, r

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    only = "--check-only" in sys.argv
    if sh("git", "-C", R, "status", "--short").stdout.strip():
        sys.exit("/repo is not clean")
    try:
        if only:
            ids = args or sorted(p.name for p in (V / "seeded").iterdir())
            for i in ids:
                d = V / "seeded" / i
                prop = json.loads((d / "meta.json").read_text())["property"]
                r = sh("git", "-C", R, "apply", str(d / "patch.diff"))
                if r.returncode:
                    print(i, "DOES NOT APPLY", r.stderr[:300]); continue
                c, r = check(prop)
                clean()
                why = re.findall(r"^--- (.*)", r.stdout, re.M)
                print(i, prop, "CAUGHT" if c else f"MISSED rc={r.returncode}", (why or [""])[0][:160], flush=True)
            return
        for f in args:
            ns = {}
            exec(open(f).read(), ns)
            for s in ns["SEEDS"]:
                one(s)
    finally:
        clean()

def one(s):
    d = V / "seeded" / s["id"]
    d.mkdir(parents=True, exist_ok=True)
    for fn, old, new in s["edits"]:
        p = pathlib.Path(R, fn)
        t = p.read_text()
        if t.count(old) != 1:
            print(s["id"], "EDIT DOES NOT MATCH", fn, t.count(old)); clean(); return
        p.write_text(t.replace(old, new))
    for fn in {e[0] for e in s["edits"]}:
        sh("gofmt", "-w", str(pathlib.Path(R, fn)), env=ENV)
    (d / "patch.diff").write_text(sh("git", "-C", R, "diff").stdout)
    (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    (d / "demo.sh").write_text(s.get("demo") or DEMO.replace("@PKG@", s.get("pkg", "")))
    os.chmod(d / "demo.sh", 0o755)
    if s.get("ts"):  # a test of the client's modules, bundled by esbuild
        for f in ("demo.sh", "bundle.mjs"):
            (d / f).write_text((V / "tools/tsdemo" / f).read_text())
        (d / "test.mjs").write_text(s["ts"])
    if s.get("test"):
        (d / "demo_test.go.txt").write_text(s["test"])
    r = sh("bash", "/opt/vp/build.sh")
    if r.returncode:
        print(s["id"], "DOES NOT BUILD", r.stderr[:800]); clean(); return
    miss = passed()
    dm = sh("bash", str(d / "demo.sh"), cwd=R)
    c, ck = check(s["property"])
    clean()
    d0 = sh("bash", str(d / "demo.sh"), cwd=R)
    why = re.findall(r"^--- (.*)", ck.stdout, re.M)
    print(s["id"], s["property"], "tests", "ok" if not miss else f"BROKEN {miss[:3]}",
          "demo", "ok" if d0.returncode == 0 and dm.returncode != 0 else f"BAD clean={d0.returncode} patched={dm.returncode}",
          "check", "CAUGHT" if c else f"MISSED rc={ck.returncode}", (why or [""])[0][:200], flush=True)
    if d0.returncode != 0:
        print((d0.stdout + d0.stderr)[-1500:])
    if dm.returncode != 0 and "FAIL" in dm.stdout and "[build failed]" in dm.stdout:
        print("demo build failed", dm.stdout[-800:], dm.stderr[-800:])

main()
