#!/usr/bin/env python3
"""plant.py [ID...]: writes /verif/seeded/<ID>/ from tools/plants/*.py and confirms,
in a scratch copy of /repo, that the change builds, passes the stable tests and is
shown by its demonstration, which passes without it."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = "/verif"
PLANTS = []
def plant(id, property, needs, breaks, edits, demo, files=None):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, files=files or {}))
for f in sorted(glob.glob(V + "/tools/plants/*.py")):
    exec(compile(open(f).read(), f, "exec"))
HEAD = r'''#!/bin/bash
# Runs in the root of the repository, after its build.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
cleanup() { [ -n "$pids" ] && kill $pids 2>/dev/null; rm -rf "$tmp"; }
trap cleanup EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
cp "$repo/client/go.mod" "$tmp/client.mod"; cp "$repo/client/go.sum" "$tmp/client.sum"
export GOFLAGS="-mod=mod -modfile=$tmp/client.mod"
(cd "$repo/client" && go build -o "$tmp/alda" .) || exit 3
mkdir -p "$tmp/home"
export HOME=$tmp/home XDG_CACHE_HOME=$tmp/home/cache XDG_CONFIG_HOME=$tmp/home/config XDG_DATA_HOME=$tmp/home/data
export ALDA_DISABLE_SPAWNING=yes ALDA_DISABLE_TELEMETRY=yes
# notes CODE: the notes of a score, one per line.
notes() {
  "$tmp/alda" parse -o data -c "$1" > "$tmp/out.json" || return 1
  python3 - "$tmp/out.json" <<'PY'
import json, sys
d = json.load(open(sys.argv[1]))
for e in sorted(d["events"], key=lambda e: (e["offset"], e["midi-note"])):
    print(*[round(e[k], 3) for k in ("midi-note", "offset", "duration", "audible-duration", "volume", "track-volume", "panning")])
PY
}
# same A B: both scores have the same notes.
same() { notes "$1" > "$tmp/1" && notes "$2" > "$tmp/2" && diff "$tmp/1" "$tmp/2" && [ -s "$tmp/1" ]; }
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
ENV = ". /opt/vp/env.sh; "
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b
def main():
    want = sys.argv[1:]
    wt = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    repo = wt + "/repo"
    sh(f"cp -a /repo {repo}")
    ok = True
    for p in PLANTS:
        if want and p["id"] not in want: continue
        sh(f"git -C {repo} checkout -q -- .")
        d = f"{V}/seeded/{p['id']}"
        os.makedirs(d, exist_ok=True)
        demo = HEAD + p["demo"].strip() + "\n"
        open(d + "/demo.sh", "w").write(demo)
        os.chmod(d + "/demo.sh", 0o755)
        for n, t in p["files"].items(): open(f"{d}/{n}", "w").write(t)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh(f"bash {d}/demo.sh", cwd=repo)
        if r.returncode != 0:
            print(p["id"], "DEMO FAILS ON CLEAN", r.stdout[-1500:], r.stderr[-1500:]); ok = False; continue
        for f, old, new in p["edits"]:
            path = f"{repo}/client/{f}"
            s = open(path).read()
            if s.count(old) != 1: print(p["id"], "EDIT", f, "matches", s.count(old), "times:", old); ok = False; break
            open(path, "w").write(s.replace(old, new))
        else:
            diff = sh(f"git -C {repo} diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            r = sh(f"{ENV} cd {repo}/client && cp go.mod {wt}/c.mod && cp go.sum {wt}/c.sum && export GOFLAGS='-mod=mod -modfile={wt}/c.mod' && go build ./... && go test -json -vet=off -count=1 ./... > {wt}/t.json; go build ./... ")
            if r.returncode != 0: print(p["id"], "BUILD", r.stderr[-2000:]); ok = False; continue
            failed = [json.loads(l) for l in open(wt + "/t.json") if l.startswith("{")]
            bad = [(x["Package"], x.get("Test")) for x in failed if x["Action"] == "fail"]
            if bad: print(p["id"], "TESTS FAIL", bad); ok = False; continue
            r = sh(f"bash {d}/demo.sh", cwd=repo)
            if r.returncode == 0: print(p["id"], "DEMO PASSES WITH PATCH", r.stdout[-800:]); ok = False; continue
            # lines of the original repository?
            for l in diff.splitlines(): pass
            print(p["id"], "ok; demo says:", (r.stdout + r.stderr)[-300:].strip().replace("\n", " / "))
    sh(f"rm -rf {wt}")
    sys.exit(0 if ok else 1)
main()
