#!/usr/bin/env python3
"""plant.py DIR...: (development) checks planted bugs described in DIR/bug.py and writes seeded/<id>.

bug.py defines: id, property, needs, breaks, edits = [(file, old, new)], demo (Go source).
Everything runs in a scratch copy of /repo.  With --run, the property's quick
check is run against the copy too.
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the repository: exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/lib/go-1.22/bin:/usr/local/bin:/usr/bin:/bin:$PATH HOME=${HOME:-/root} TZ=UTC
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off
exec timeout 250 go run RACE"$here/demo.go"
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def plant(b, run):
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        rp = os.path.join(tmp, "repo")
        sh(f"cp -a /repo {rp}")
        sh(f"git -C {rp} checkout -q -- .")
        d = os.path.join(tmp, "d"); os.mkdir(d)
        open(os.path.join(d, "demo.go"), "w").write(b["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("RACE", "-race " if b.get("race") else ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        r = sh(os.path.join(d, "demo.sh"), cwd=rp)
        if r.returncode != 0:
            return f"demo fails on the unchanged tree: {r.stdout[-600:]}{r.stderr[-600:]}"
        for f, old, new in b["edits"]:
            p = os.path.join(rp, f); s = open(p).read()
            if s.count(old) != 1:
                return f"{f}: the old text occurs {s.count(old)} times"
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {rp} diff").stdout
        env = ". /opt/vp/env.sh; export GOFLAGS='-mod=readonly -buildvcs=false' TZ=UTC;"
        r = sh(env + "gofmt -l $(git diff --name-only); go build ./... && go vet $(git diff --name-only | xargs -n1 dirname | sort -u | sed 's#^#./#')", cwd=rp)
        if r.returncode != 0 or r.stdout.strip():
            return f"build/vet: {r.stdout[-500:]}{r.stderr[-800:]}"
        # stable tests
        base = json.load(open("/opt/vp/BASELINE.json"))
        r = sh(env + "go test -count=1 -json ./... 2>/dev/null", cwd=rp)
        ok = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and e.get("Test"):
                ok.add((e["Package"], e["Test"]))
        need = stable(base)
        miss = [t for t in need if t not in {p + "/" + n for p, n in ok}]
        if miss:
            return f"stable tests fail: {miss[:5]}"
        r = sh(os.path.join(d, "demo.sh"), cwd=rp)
        if r.returncode == 0:
            return "demo passes with the change"
        demo_out = (r.stdout + r.stderr).strip().splitlines()
        if not b.get("crash") and any("cannot use" in x or "undefined" in x for x in demo_out):
            return "demo does not build: " + "\n".join(demo_out)
        out = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        for f in ("demo.go", "demo.sh"):
            shutil.copy(os.path.join(d, f), out)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        res = "planted; demo: " + " ".join(demo_out[-3:])[:160]
        if run:
            res += "\n      " + check(b["property"], rp, tmp)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def check(pid, rp, tmp):
    vr = os.path.join(tmp, "vr")
    r = sh(f"VERIF_REPO={rp} VERIF_ROOT={vr} {ROOT}/run.sh {pid} quick")
    lines = [l for l in r.stdout.splitlines() if l.strip()]
    if r.returncode == 1 and f"VIOLATION property={pid}" in r.stdout:
        return "CAUGHT " + " ".join(lines[-3:-1])[:260]
    return f"MISSED rc={r.returncode} " + " ".join(lines[-2:])[:300] + r.stderr[-300:]

def stable(base):
    for k in ("stable", "stable_tests", "passing", "pass", "tests"):
        if k in base: return base[k] if not isinstance(base[k], dict) else list(base[k])
    raise SystemExit(f"BASELINE keys: {list(base)}")

if __name__ == "__main__":
    run = "--run" in sys.argv
    only = [a for a in sys.argv[2:] if a != "--run"]
    g = {}
    exec(open(sys.argv[1]).read(), g)
    from concurrent.futures import ThreadPoolExecutor
    bugs = [b for b in g["bugs"] if not only or b["id"] in only]
    with ThreadPoolExecutor(2 if run else 4) as ex:
        for b, r in zip(bugs, ex.map(lambda b: plant(b, run), bugs)):
            print(f"{b['id']} ({b['property']}): {r}", flush=True)
