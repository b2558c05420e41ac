#!/usr/bin/env python3
"""Keeps the planted bugs honest. Not used by any check.

plant.py make DIR...    DIR holds edit.py (prints nothing; defines EDITS = [(file, old, new)]), demo.sh, meta.json: writes patch.diff
plant.py confirm ID...  in a scratch copy: builds, passes the tests, demo passes without and fails with the patch
plant.py catch ID...    applies the patch to /repo, runs the property's check, undoes it
"""
import json, os, shutil, subprocess, sys, tempfile, time

SEEDED = "/verif/seeded"
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("tests", json.load(open("/opt/vp/BASELINE.json")).get("stable", [])))


def sh(cmd, cwd, timeout=600, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode("utf-8", "replace")


ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")


def make(d):
    ns = {}
    exec(open(os.path.join(d, "edit.py")).read(), ns)
    t = tempfile.mkdtemp(prefix="plant")
    subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
    for f, old, new in ns["EDITS"]:
        p = t + "/r/" + f
        s = open(p).read()
        assert s.count(old) == 1, (d, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=t + "/r")
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    shutil.rmtree(t)


def confirm(i):
    d = os.path.join(SEEDED, i)
    t = tempfile.mkdtemp(prefix="plant")
    try:
        subprocess.check_call(["cp", "-a", "/repo", t + "/r"])
        dem = t + "/demo"
        shutil.copytree(d, dem, ignore=shutil.ignore_patterns("*.diff", "meta.json", "edit.py"))
        # the demo and the tests must see /repo's path: run them in a private mount of the copy if possible, else rely on cwd
        def build():
            os.utime(t + "/r/src/dump.rs"); os.utime(t + "/r/src/lib.rs"); os.utime(t + "/r/src/check.rs")
            return sh("cargo build --workspace --offline --locked && cargo test --workspace --no-run --offline --locked", t + "/r", env=ENV)
        rc, o = build()
        if rc:
            return "clean build fails\n" + o[-2000:]
        rc, o = sh(["bash", dem + "/demo.sh"], t + "/r", 300, ENV)
        if rc:
            return "demo fails on the unchanged tree (%d)\n%s" % (rc, o[-2000:])
        rc, o = sh(["git", "apply", d + "/patch.diff"], t + "/r")
        if rc:
            return "patch does not apply\n" + o
        rc, o = build()
        if rc:
            return "patched build fails\n" + o[-3000:]
        rc, o = sh("cargo test --workspace --no-fail-fast --offline --locked 2>&1 | grep -E '^test result|FAILED|failed'", t + "/r", env=ENV)
        if "FAILED" in o or "failed;" in o.replace(" 0 failed;", ""):
            return "tests fail\n" + o[-2000:]
        rc, o = sh(["bash", dem + "/demo.sh"], t + "/r", 300, ENV)
        if rc == 0:
            return "demo passes with the patch\n" + o[-1000:]
        return None
    finally:
        shutil.rmtree(t)


def catch(i, props=None):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(d + "/meta.json"))
    st = subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
    assert not st.strip(), "repo not clean"
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        res = []
        for p in props or [meta["property"]]:
            t0 = time.time()
            rc, o = sh(["./check.sh", p, "quick"], "/verif", 900)
            hit = rc == 1 and "VIOLATION property=%s" % p in o
            res.append((p, "CAUGHT" if hit else "missed (exit %d)" % rc, round(time.time() - t0, 1), [l for l in o.splitlines() if l.startswith(("minimised", "found", "replay in"))] if hit else o[-300:]))
        return res
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])


if __name__ == "__main__":
    what, ids = sys.argv[1], [x for x in sys.argv[2:] if not x.startswith("--props=")]
    props = next((x[8:].split(",") for x in sys.argv if x.startswith("--props=")), None)
    for i in ids or sorted(os.listdir(SEEDED)):
        if what == "make":
            make(i if "/" in i else os.path.join(SEEDED, i)); print(i, "made")
        elif what == "confirm":
            print(i, confirm(i) or "confirmed", flush=True)
        else:
            for r in catch(i, props):
                print(i, *r, flush=True)
