"""Build the MIR dumper and run it over /repo's current working tree.

The dump is keyed by a content hash of every input of the build (sources,
manifest, build script, driver source), never by mtime; a dump whose key does not
match the current tree is never used."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def _env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER",
              "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin",
             RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    e.update(kw)
    return e


def _run(cmd, cwd, env, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True, timeout=timeout)
    return p.returncode, p.stdout


def _hash_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode())
        h.update(b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            h.update(b"missing")
    return h.hexdigest()


def repo_inputs():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in files:
            out.append(os.path.join(root, f))
    for f in ("Cargo.toml", "Cargo.lock", "build.rs", ".cargo/config", ".cargo/config.toml", "rust-toolchain"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def driver_inputs():
    return [os.path.join(VERIF, "driver", "src", "main.rs"), os.path.join(VERIF, "driver", "Cargo.toml")]


def ensure_driver():
    tgt = os.path.join(CACHE, "driver")
    key = _hash_files(driver_inputs())
    stamp = os.path.join(tgt, "stamp-" + key)
    exe = os.path.join(tgt, "release", "mirdump")
    if os.path.exists(stamp) and os.path.exists(exe):
        return exe
    os.makedirs(tgt, exist_ok=True)
    for s in glob.glob(os.path.join(tgt, "stamp-*")):
        os.unlink(s)
    for p in driver_inputs():
        os.utime(p, None)
    rc, out = _run(["cargo", "build", "--release", "--offline"], os.path.join(VERIF, "driver"),
                   _env(CARGO_TARGET_DIR=tgt))
    if rc != 0 or not os.path.exists(exe):
        raise BuildError("driver build failed:\n" + out[-4000:])
    open(stamp, "w").close()
    return exe


def sysroot_lib():
    rc, out = _run(["rustc", "--print", "sysroot"], VERIF, _env())
    if rc != 0:
        raise BuildError("no nightly toolchain: " + out)
    return os.path.join(out.strip(), "lib")


def dump():
    """Return the directory with lib.json and bin.json for the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = ensure_driver()
        key = _hash_files(repo_inputs() + driver_inputs())
        out = os.path.join(CACHE, "dump-" + key[:24])
        ok = os.path.join(out, "complete")
        if os.path.exists(ok):
            return out
        for old in glob.glob(os.path.join(CACHE, "dump-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(CACHE, "target")
        for pat in ("debug/.fingerprint/divans-*", "debug/build/divans/*", "debug/build/divans-*", "debug/deps/*divans*"):
            for p in glob.glob(os.path.join(tgt, pat)):
                if os.path.isdir(p):
                    shutil.rmtree(p, ignore_errors=True)
                else:
                    os.unlink(p)
        lock = os.path.join(REPO, "Cargo.lock")
        had_lock = os.path.exists(lock)
        rc, log = _run(["cargo", "check", "--offline", "--lib", "--bins"], REPO,
                       _env(MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=tgt,
                            LD_LIBRARY_PATH=sysroot_lib()))
        if not had_lock and os.path.exists(lock):
            os.unlink(lock)
        if rc != 0:
            raise BuildError("cargo check over %s failed:\n%s" % (REPO, log[-4000:]))
        for f in ("lib.json", "bin.json"):
            if not os.path.exists(os.path.join(out, f)):
                raise BuildError("dumper produced no %s\n%s" % (f, log[-3000:]))
        if _hash_files(repo_inputs() + driver_inputs()) != key and had_lock:
            raise BuildError("tree changed during the build")
        open(ok, "w").close()
        return out


def load():
    d = dump()
    with open(os.path.join(d, "lib.json")) as f:
        lib = json.load(f)
    with open(os.path.join(d, "bin.json")) as f:
        bn = json.load(f)
    return lib, bn


if __name__ == "__main__":
    try:
        print(dump())
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(2)
