"""Builds everything a check needs from /repo's working tree. Cheap when nothing changed."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")
KERNEL = os.path.join(OUT, "libsim.so")
BINS = {
    "dump": os.path.join(OUT, "target/release/elm-parser-dump"),
    "check": os.path.join(OUT, "target/release/elm-parser-check"),
    "threads": os.path.join(OUT, "target-lib/release/parse-threads"),
}


BUILT = set()


def have(prog):
    return prog in BUILT


class BuildError(Exception):
    pass


def _hash(paths):
    h = hashlib.sha256()
    for top in paths:
        files = [top] if os.path.isfile(top) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del e[k]
    e.update(HOME="/root", LANG="C.UTF-8", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             # optimised, but with the assertions and overflow checks of the dev profile
             CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="true", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true")
    return e


def _run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def build(need=("dump", "check", "threads")):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        k = _hash([os.path.join(VERIF, "sim/kernel.c"), os.path.join(VERIF, "sim/build.sh")])
        kstamp = KERNEL + ".stamp"
        if not os.path.exists(KERNEL) or not os.path.exists(kstamp) or open(kstamp).read() != k:
            _run(["bash", os.path.join(VERIF, "sim/build.sh"), KERNEL], VERIF, _env())
            open(kstamp, "w").write(k)
        src = _hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")])
        if "dump" in need or "check" in need:
            _cargo("bins", src, ["cargo", "build", "--release", "--bins", "--offline", "--locked",
                                 "--manifest-path", os.path.join(REPO, "Cargo.toml")], "target", {})
        if "threads" in need or "threads?" in need:
            h = src + _hash([os.path.join(VERIF, "harness/src"), os.path.join(VERIF, "harness/Cargo.toml"), os.path.join(VERIF, "sim/rustc-wrap.sh")])
            try:
                _cargo("lib", h, ["cargo", "build", "--release", "--offline", "--locked",
                                  "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml")], "target-lib",
                       {"RUSTFLAGS": "--cfg elm_parser_sim", "RUSTC_WRAPPER": os.path.join(VERIF, "sim/rustc-wrap.sh")})
                BUILT.add("threads")
            except BuildError:
                if "threads" in need:
                    raise
        return src


def _cargo(name, digest, cmd, target, extra):
    t = os.path.join(OUT, target)
    stamp = os.path.join(OUT, name + ".stamp")
    if os.path.exists(stamp) and open(stamp).read() == digest:
        return
    # cargo goes by modification times; a changed tree may carry old ones, so forget our crates
    for f in glob.glob(os.path.join(t, "release/.fingerprint/elm-parser-*")) + glob.glob(
            os.path.join(t, "release/.fingerprint/parse-threads-*")):
        shutil.rmtree(f)
    env = _env()
    env.update(extra)
    _run(cmd + ["--target-dir", t], VERIF, env)
    open(stamp, "w").write(digest)


if __name__ == "__main__":
    try:
        build()
    except BuildError as e:
        print(e)
        sys.exit(2)
