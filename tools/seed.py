#!/usr/bin/env python3
"""Developer helper: write and validate planted bugs.

  seed.py make FILE.py [id..]   FILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo, files={})]
  seed.py test id..             build + stable tests + demo on both trees + the property's quick check
"""
import json, os, shutil, subprocess, sys, runpy
V = "/verif"
W = "/tmp/seedwork/wt"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def fresh():
    if not os.path.isdir(W):
        os.makedirs(os.path.dirname(W), exist_ok=True)
        r = sh(f"cp -a /repo {W}"); assert r.returncode == 0, r.stderr
    sh(f"git -C {W} fetch -q /repo HEAD && git -C {W} checkout -q -f --detach FETCH_HEAD && git -C {W} clean -fdq")

HEAD = """#!/bin/bash
# exit 0: the property holds, 1: it is broken
set -u
B="$PWD/target/debug/wimbd"
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'cd /; rm -rf "$T"' EXIT
cd "$T"
mk() { # mk FILE: gzip the lines on stdin
  gzip -c > "$1"
}
text() { # text T..: one document per argument
  python3 -c 'import json,sys
for t in sys.argv[1:]: print(json.dumps({"text": t}))' "$@"
}
bad() { echo "BROKEN: $*"; exit 1; }
"""

def make(b):
    fresh()
    for f, old, new in b["edits"]:
        p = f"{W}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {W} diff").stdout)
    open(f"{d}/demo.sh", "w").write(HEAD + b["demo"].strip("\n") + "\nexit 0\n")
    os.chmod(f"{d}/demo.sh", 0o755)
    for n, t in b.get("files", {}).items():
        open(f"{d}/{n}", "w").write(t)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)

def test(i):
    d = f"{V}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    res = [i, meta["property"]]
    r = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=300)
    res.append("demo-clean:" + ("ok" if r.returncode == 0 else f"FAIL {r.stdout[-300:]} {r.stderr[-300:]}"))
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode:
        return res + ["APPLY FAILED " + a.stderr]
    try:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: return res + ["BUILD FAILED " + r.stderr[-1500:]]
        sh("bash /opt/vp/test.sh /tmp/seedwork/t.json")
        t = json.load(open("/tmp/seedwork/t.json"))
        f = t.get("failed", [])
        f = f if isinstance(f, int) else len(f)
        res.append("tests:" + ("ok" if f == 0 else f"FAILED {t}"))
        r = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=300)
        res.append("demo-bug:" + (f"ok({r.stdout.strip()[-120:]})" if r.returncode else "NOT SHOWN"))
        r = sh(f"cd {V} && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check {meta['property']} quick")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        what = [l.strip() for l in r.stdout.splitlines() if l.strip().startswith("what:")]
        res.append(f"check: rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {what[:1]}")
    finally:
        sh("git -C /repo checkout -- .")
    return res

if __name__ == "__main__":
    if sys.argv[1] == "make":
        bugs = runpy.run_path(sys.argv[2])["BUGS"]
        for b in bugs:
            if len(sys.argv) == 3 or b["id"] in sys.argv[3:]:
                make(b); print("made", b["id"])
    else:
        for i in sys.argv[2:]:
            print(" | ".join(test(i)), flush=True)
        sh("bash /opt/vp/build.sh")
