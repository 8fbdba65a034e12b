#!/usr/bin/env python3
"""Driver of the runtime monitors.

  run.py PROPERTY [--tier quick|thorough] [--n N] [--replay FILE] [--keep]

Builds the harness into /repo's own packages through a build overlay (nothing is
written in /repo), runs the property's cases in parallel shards, merges what the
monitors saw, writes /verif/evidence/<id>.json and reports.
"""
import argparse, hashlib, json, os, pathlib, re, shutil, subprocess, sys, tempfile, time

VERIF = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
HARNESS = VERIF / "harness"
sys.path.insert(0, str(VERIF))
from props import PROPS  # noqa: E402

HOSTS = {
    "suggest": ("cmd/db/suggest", "suggest_verif_test.go"),
    "jaeger": ("cmd/app/dig", "jaeger_verif_test.go"),
    "pi": ("cmd/db/dig", "pi_verif_test.go"),
    "cli": ("", "cli_verif_test.go"),
}


def go_env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", TZ="UTC", CGO_ENABLED=e.get("CGO_ENABLED", "1"))
    return e


def overlay(tmp):
    rep = {}
    for f in sorted((HARNESS / "kit").glob("*.go")):
        rep[str(REPO / "verifkit" / f.name)] = str(f)
    for h, (pkg, shim) in HOSTS.items():
        p = HARNESS / "shims" / shim
        if p.exists() and pkg:
            rep[str(REPO / pkg / "zz_verif_test.go")] = str(p)
    # go.mod/go.sum stay untouched even with -mod=mod: work on copies
    for n in ("go.mod", "go.sum"):
        shutil.copy(REPO / n, tmp / n)
    o = tmp / "overlay.json"
    o.write_text(json.dumps({"Replace": rep}))
    return o


def build(tmp, host, race):
    o = overlay(tmp)
    out = tmp / f"{host}.test"
    pkg, _ = HOSTS[host]
    # the package's own test files are left out of the binary: only ours runs
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", str(o), "-modfile", str(tmp / "go.mod"), "-o", str(out)]
    if race:
        cmd.append("-race")
    cmd.append("./" + pkg)
    r = subprocess.run(cmd, cwd=REPO, env=go_env(), capture_output=True, text=True)
    return out, r


def build_cli(tmp, race):
    """The real command line program, with the front-end assets replaced by stand-ins."""
    o = tmp / "cli_overlay.json"
    rep = {}
    assets = tmp / "assets"
    assets.mkdir(exist_ok=True)
    for n, txt in (("main.js", "console.log('main-js')"), ("main.css", "body{--which:main-css}"),
                   ("mermaid.js", "console.log('mermaid-js')"), ("mermaid.css", "body{--which:mermaid-css}")):
        (assets / n).write_text(txt)
        rep[str(REPO / "client/dist/assets" / n)] = str(assets / n)
    o.write_text(json.dumps({"Replace": rep}))
    for n in ("go.mod", "go.sum"):
        if not (tmp / n).exists():
            shutil.copy(REPO / n, tmp / n)
    out = tmp / "gr"
    cmd = ["go", "build", "-overlay", str(o), "-modfile", str(tmp / "go.mod"), "-o", str(out)]
    if race:
        cmd.append("-race")
    cmd.append(".")
    r = subprocess.run(cmd, cwd=REPO, env=go_env(), capture_output=True, text=True)
    return out, r


def build_client(tmp):
    """The front end of the tree, bundled for harness/client/page.mjs."""
    d = tmp / "client"
    d.mkdir(exist_ok=True)
    r = subprocess.run(["node", str(HARNESS / "client" / "build.mjs"), str(REPO), str(d)], capture_output=True, text=True)
    return d, r


def known_findings():
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return json.loads(p.read_text()).get("findings", [])


def run_host(prop, host, spec, tier, seed, n, tmp, replay_case=None, race=False):
    """Runs all shards of one host; returns merged dict."""
    t0 = time.time()
    binary, r = build(tmp, host, race)
    if r.returncode != 0:
        return {"build_failed": r.stdout[-3000:] + r.stderr[-6000:]}
    extra = {}
    if spec.get("cli"):
        gr, r2 = build_cli(tmp, race)
        if r2.returncode != 0:
            return {"build_failed": r2.stdout[-3000:] + r2.stderr[-6000:]}
        extra["VERIF_GR"] = str(gr)
    if spec.get("client"):
        d, r3 = build_client(tmp)
        if r3.returncode != 0:
            return {"build_failed": r3.stdout[-3000:] + r3.stderr[-6000:]}
        extra.update(VERIF_CLIENT=str(d), VERIF_PAGE=str(HARNESS / "client" / "page.mjs"))
    tbuild = time.time() - t0
    shards = 1 if replay_case is not None else min(spec.get("shards", 8), max(1, n))
    procs = []
    for s in range(shards):
        env = go_env()
        env.update(extra)
        if race:
            env["GORACE"] = "halt_on_error=1 exitcode=66"
        out = tmp / f"{host}-{s}.json"
        env.update(VERIF_PROP=prop, VERIF_OUT=str(out), VERIF_SEED=str(seed), VERIF_TIER=tier,
                   VERIF_N=str(n), VERIF_SHARD=str(s), VERIF_SHARDS=str(shards), VERIF_ONE="")
        if replay_case is not None:
            env["VERIF_ONE"] = str(replay_case)
        log = open(tmp / f"{host}-{s}.log", "w")
        cwd = tmp / f"cwd-{host}-{s}"
        cwd.mkdir(exist_ok=True)
        p = subprocess.Popen([str(binary), "-test.run", "^TestVerif$", "-test.timeout", "0", "-test.v"],
                             cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT)
        procs.append((s, p, out, log))
    merged = {"cases": 0, "evals": 0, "counters": {}, "sigs": set(), "samples": [], "violations": [], "n_violations": 0}
    limit = spec.get("limit_s", 780 if tier == "quick" else 6 * 3600)
    deadline = time.time() + limit
    for s, p, out, log in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            rc = "timeout"
        log.close()
        d = None
        if out.exists():
            d = json.loads(out.read_text())
        if d is None or not d.get("finished") or rc != 0:
            cur = pathlib.Path(str(out) + ".cur")
            case = int(cur.read_text()) if cur.exists() and cur.read_text().strip() else -1
            text = (tmp / f"{host}-{s}.log").read_text(errors="replace")
            if rc == "timeout":
                # never an alarm: we only did less
                merged["counters"]["shards_cut_short"] = merged["counters"].get("shards_cut_short", 0) + 1
            elif d is None or not d.get("finished") or "DATA RACE" in text:
                i = text.find("WARNING: DATA RACE")
                if i < 0:
                    i = text.find("panic:")
                if i < 0:
                    i = text.find("fatal error:")
                snippet = text[max(0, i):][:6000] if i >= 0 else text[-6000:]
                key = "race" if "DATA RACE" in text else "crash"
                first = next((l for l in snippet.splitlines() if l.strip()), "process died")
                merged["violations"].append({"property": prop, "host": host, "case": case, "key": key,
                                             "msg": f"the process died ({rc}): {first}", "detail": snippet})
                merged["n_violations"] += 1
        if d:
            merged["cases"] += d["cases"]
            merged["evals"] += d["evals"]
            for k, v in (d["counters"] or {}).items():
                merged["counters"][k] = merged["counters"].get(k, 0) + v
            merged["sigs"].update(d["sigs"] or [])
            merged["samples"] += d["samples"] or []
            merged["violations"] += d["violations"] or []
            merged["n_violations"] += d["n_violations"]
    merged["build_s"] = round(tbuild, 2)
    return merged


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--n", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--race", action="store_true")
    ap.add_argument("--only-host")
    ap.add_argument("--seed", type=int)
    a = ap.parse_args()
    if a.setup:
        return setup()
    prop = a.prop
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    t0 = time.time()
    tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
    try:
        return run(prop, tier, seed, spec, a, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    """Warms the build cache, so that the checks only compile what changed."""
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="verif-setup-"))
    try:
        used = {h for p in PROPS.values() for h in p["hosts"]}
        for h in sorted(used):
            _, r = build(tmp, h, False)
            if r.returncode != 0:
                print(r.stdout[-3000:] + r.stderr[-3000:])
                return 1
        if any(p.get("cli") for p in PROPS.values()):
            _, r = build_cli(tmp, False)
            if r.returncode != 0:
                print(r.stdout[-3000:] + r.stderr[-3000:])
                return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


def run(prop, tier, seed, spec, a, tmp, t0):
    replay = None
    if a.replay:
        replay = json.loads(pathlib.Path(a.replay).read_text())
        seed, tier = replay["seed"], replay["tier"]
    race = a.race or (tier == "thorough" and spec.get("race", True))
    tot = {"cases": 0, "evals": 0, "counters": {}, "sigs": 0, "samples": [], "violations": [], "n_violations": 0}
    per_host = {}
    for host, hs in spec["hosts"].items():
        if replay and replay["host"] != host:
            continue
        if a.only_host and a.only_host != host:
            continue
        n = a.n or hs["quick" if tier == "quick" else "thorough"]
        m = run_host(prop, host, {**spec, **hs}, tier, seed, n, tmp, replay["case"] if replay else None, race)
        if "build_failed" in m:
            # no verdict is possible: the tree does not compile with the harness
            print(m["build_failed"])
            print(f"ERROR property={prop}: the harness does not build against this tree")
            return 2
        per_host[host] = m
        tot["cases"] += m["cases"]
        tot["evals"] += m["evals"]
        for k, v in m["counters"].items():
            tot["counters"][k] = tot["counters"].get(k, 0) + v
        tot["sigs"] += len(m["sigs"])
        tot["samples"] += m["samples"][:4]
        tot["violations"] += m["violations"]
        tot["n_violations"] += m["n_violations"]
    known = [k for k in known_findings() if k["property"] == prop and k.get("status") == "known"]
    fresh, hit = [], {}
    for v in tot["violations"]:
        k = next((k for k in known if k["key"] == v["key"]), None)
        if k:
            hit.setdefault(k["key"], (k, v))
        else:
            fresh.append(v)
    print(f"[{prop}] tier={tier} seed={seed} cases={tot['cases']} judgements={tot['evals']} "
          f"distinct={tot['sigs']} wall={time.time()-t0:.1f}s")
    for k in sorted(tot["counters"]):
        print(f"    saw {k}: {tot['counters'][k]}")
    for key, (k, v) in hit.items():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rc = 0
    if fresh:
        d = VERIF / "replays"
        d.mkdir(exist_ok=True)
        v = fresh[0]
        path = d / f"{prop}-{v['host']}-{seed}-{v['case']}.json"
        path.write_text(json.dumps({"property": prop, "host": v["host"], "case": v["case"], "seed": seed,
                                    "tier": tier, "violation": v}, indent=1))
        for v in fresh[:3]:
            print(f"--- {v['key']} host={v['host']} case={v['case']}: {v['msg']}")
            print("\n".join("    " + l for l in v["detail"].splitlines()[:80]))
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    need = spec.get("need", {})
    if rc == 0 and not replay and not a.only_host and not a.n:
        # the monitors must have seen something
        lack = [k for k, v in need.items() if tot["counters"].get(k, 0) < v]
        if tot["evals"] == 0 or lack:
            print(f"ERROR property={prop}: the monitors saw too little ({lack or 'no judgements'})")
            rc = 2
    if not replay:
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
            "coverage": {
                "evaluations": tot["cases"], "distinct_nontrivial": tot["sigs"],
                "rule": spec["rule"], "samples": tot["samples"][:8],
                "judgements": tot["evals"], "counters": dict(sorted(tot["counters"].items())),
                "race_detector": race,
            },
            "wall_s": round(time.time() - t0, 2),
            "violations": tot["n_violations"] if fresh else 0,
            "known_findings_seen": sorted(hit),
            "assumptions": spec.get("assumptions", []),
        }
        e = VERIF / "evidence"
        e.mkdir(exist_ok=True)
        (e / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    return rc


if __name__ == "__main__":
    sys.exit(main())
