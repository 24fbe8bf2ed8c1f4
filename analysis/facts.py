"""Builds the driver, runs it over /repo's working tree, loads the facts."""
import hashlib, json, os, subprocess, sys, shutil, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CDX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root") or "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    return e


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def repo_sources():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            out.append(os.path.join(base, f))
    for f in ("Cargo.toml", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def build_driver():
    src = os.path.join(VERIF, "driver")
    files = [os.path.join(src, "Cargo.toml"), os.path.join(src, "src/main.rs")]
    key = _hash_files(files)
    tdir = os.path.join(BUILD, "driver")
    binp = os.path.join(tdir, "debug", "cdxfacts")
    stamp = os.path.join(tdir, "stamp")
    if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == key:
        return binp, key
    e = _env()
    e["CARGO_TARGET_DIR"] = tdir
    r = subprocess.run(["cargo", "+nightly", "build", "--offline"], cwd=src, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("driver build failed:\n" + r.stdout[-3000:])
    with open(stamp, "w") as f:
        f.write(key)
    return binp, key


def make_facts():
    """Returns the directory holding lib and bin facts of the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        binp, dkey = build_driver()
        lock = os.path.join(REPO, "Cargo.lock")
        made_lock = False
        if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", lock)  # git-ignored in /repo, as build.sh does
        srcs = repo_sources() + ([lock] if os.path.exists(lock) else [])
        key = hashlib.sha256((_hash_files(srcs) + dkey).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "facts", key)
        if all(os.path.exists(os.path.join(out, f)) for f in ("cdx.json", "bin.json", "ok")):
            return out
        fdir = os.path.join(BUILD, "facts")
        if os.path.isdir(fdir):
            olds = sorted((os.path.join(fdir, d) for d in os.listdir(fdir)), key=os.path.getmtime)
            for d in olds[:-12]:
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        e = _env()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, stdout=subprocess.PIPE,
                                 text=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        e["CDXFACTS_OUT"] = out
        tdir = os.path.join(BUILD, "target")
        e["CARGO_TARGET_DIR"] = tdir
        e["RUSTC_WORKSPACE_WRAPPER"] = binp
        # cargo's freshness cache would skip the wrapper: forget the workspace crate
        subprocess.run(["cargo", "+nightly", "clean", "-p", "cdx", "--offline"], cwd=REPO, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        e["CARGO_INCREMENTAL"] = "0"
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--bins"], cwd=REPO, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("cargo check of /repo failed:\n" + r.stdout[-3000:])
        for f in ("cdx.json", "bin.json"):
            if not os.path.exists(os.path.join(out, f)):
                raise BuildError("driver produced no " + f + "\n" + r.stdout[-2000:])
        with open(os.path.join(out, "ok"), "w") as f:
            f.write("ok")
        return out


if __name__ == "__main__":
    try:
        print("facts in", make_facts())
    except BuildError as x:
        print(x)
        sys.exit(2)
