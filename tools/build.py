#!/usr/bin/env python3
"""Bring mc/gen/src in step with /repo/src (by content) and build subject and explorer.

Prints a JSON object: {"mode": "controlled"|"passthrough"|"failed", "dir": <directory with the binaries>, "log": ...}
"""
import fcntl, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MCX_REPO", "/repo")
MC = os.path.join(VERIF, "mc")


def sync(src, dst):
    """Make dst a copy of src; only touch files whose content differs."""
    want = {}
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            want[os.path.relpath(p, src)] = open(p, "rb").read()
    for d, _, fs in os.walk(dst, topdown=False):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, dst) not in want:
                os.remove(p)
        if d != dst and not os.listdir(d):
            os.rmdir(d)
    for r, data in want.items():
        p = os.path.join(dst, r)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        try:
            if open(p, "rb").read() == data:
                continue
        except OSError:
            pass
        with open(p, "wb") as f:
            f.write(data)


def cargo(args, target):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", target] + args,
                       cwd=MC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build(api=True):
    os.makedirs(os.path.join(MC, "gen", "src"), exist_ok=True)
    os.makedirs(os.path.join(MC, "target"), exist_ok=True)
    with open(os.path.join(MC, "target", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sync(os.path.join(REPO, "src"), os.path.join(MC, "gen", "src"))
        t = os.path.join(MC, "target")
        rel = os.path.join(t, "release")
        pk = ["-p", "mcx", "-p", "subject"]
        rc, log = cargo(pk + (["--bin", "mcx", "--bin", "selft", "--bin", "wimbd", "--bin", "apih"] if api else ["--bin", "mcx", "--bin", "selft", "--bin", "wimbd"]), t)
        if rc == 0:
            return dict(mode="controlled", dir=rel, api=api)
        if api:
            # the API harness may not fit a changed public API: the commands can still be checked
            rc2, _ = cargo(pk + ["--bin", "mcx", "--bin", "selft", "--bin", "wimbd"], t)
            if rc2 == 0:
                return dict(mode="controlled", dir=rel, api=False, log=log[-4000:])
        # Does it build at all without the controlled primitives?
        t2 = os.path.join(MC, "target", "pt")
        rc3, log3 = cargo(["-p", "subject", "--features", "passthrough", "--bin", "wimbd", "--bin", "apih"], t2)
        api3 = rc3 == 0
        if rc3 != 0:
            rc3, log3 = cargo(["-p", "subject", "--features", "passthrough", "--bin", "wimbd"], t2)
        rc4, log4 = cargo(["-p", "mcx"], t)
        if rc3 == 0 and rc4 == 0:
            d = os.path.join(t2, "release")
            shutil.copy2(os.path.join(rel, "mcx"), os.path.join(d, "mcx"))
            return dict(mode="passthrough", dir=d, api=api3, log=log[-4000:])
        return dict(mode="failed", dir=None, api=False, log=(log + log3 + log4)[-8000:])


if __name__ == "__main__":
    r = build()
    print(json.dumps(r))
    sys.exit(0 if r["mode"] != "failed" else 2)
