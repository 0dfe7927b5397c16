"""Builds the MIR exporter and dumps the MIR of /repo's current tree."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))


class BuildFailed(Exception):
    pass


def run(cmd, env=None, **kw):
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildFailed("%s failed (%d):\n%s" % (" ".join(cmd[:4]), p.returncode, p.stdout[-4000:]))
    return p.stdout


FEATURES = ["--features", "indexing"]


def sources():
    out = {}
    for base in ("src", ".cargo"):
        for p in glob.glob(os.path.join(REPO, base, "**", "*"), recursive=True):
            if os.path.isfile(p):
                out[os.path.relpath(p, REPO)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    for p in ("Cargo.toml", "Cargo.lock", "build.rs", "rust-toolchain", "rust-toolchain.toml"):
        f = os.path.join(REPO, p)
        if os.path.isfile(f):
            out[p] = hashlib.sha256(open(f, "rb").read()).hexdigest()
    return out


UNITS = {"lib": ("indexer_lib", ["--lib"]), "bin": ("indexer", ["--bin", "indexer"])}


def ensure(features=FEATURES, unit="lib"):
    """returns the path of a MIR dump of the current tree"""
    crate, which = UNITS[unit]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        sysroot = run(["rustc", "+nightly", "--print", "sysroot"]).strip()
        drv = os.path.join(BUILD, "mirdump")
        src = os.path.join(VERIF, "driver", "main.rs")
        stamp = hashlib.sha256(open(src, "rb").read() + sysroot.encode()).hexdigest()
        sf = drv + ".stamp"
        if not os.path.exists(drv) or not os.path.exists(sf) or open(sf).read() != stamp:
            run(["rustc", "+nightly", "-O", src, "-o", drv, "--edition", "2021"])
            open(sf, "w").write(stamp)
        shim = os.path.join(BUILD, "rustc-shim")
        shutil.copy(os.path.join(VERIF, "driver", "rustc-shim"), shim)
        os.chmod(shim, 0o755)
        lockdir = os.path.join(BUILD, "lockfile")
        os.makedirs(lockdir, exist_ok=True)
        shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(lockdir, "Cargo.lock"))
        target = os.path.join(BUILD, "target")
        for p in glob.glob(os.path.join(target, "*", ".fingerprint", "index*")) + glob.glob(os.path.join(target, "*", "build", "indexer*")):
            shutil.rmtree(p, ignore_errors=True)
        out = os.path.join(BUILD, "mir.json")
        if os.path.exists(out):
            os.remove(out)
        env = {k: v for k, v in os.environ.items() if not k.startswith("CARGO_") and k not in ("RUSTC", "RUSTC_WRAPPER", "RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN")}
        if "CARGO_HOME" in os.environ:
            env["CARGO_HOME"] = os.environ["CARGO_HOME"]
        env.update({
            "RUSTC": shim, "VERIF_REAL_RUSTC": os.path.join(sysroot, "bin", "rustc"),
            "CARGO_RESOLVER_LOCKFILE_PATH": os.path.join(lockdir, "Cargo.lock"), "CARGO_NET_OFFLINE": "true",
            "CARGO_TARGET_DIR": target, "LD_LIBRARY_PATH": os.path.join(sysroot, "lib"),
            "RUSTC_WORKSPACE_WRAPPER": drv, "VERIF_CRATE": crate, "VERIF_MIR_OUT": out,
            "RUSTFLAGS": "-Cpanic=abort -Cdebug-assertions=off -Coverflow-checks=on -Zalways-encode-mir", "CARGO_INCREMENTAL": "0",
        })
        log = run(["cargo", "+nightly", "check", "--offline", *which, *features, "--manifest-path", os.path.join(REPO, "Cargo.toml")], env=env, cwd=BUILD)
        if not os.path.exists(out):
            raise BuildFailed("the exporter wrote nothing:\n" + log[-3000:])
        final = os.path.join(BUILD, "mir-%d%s%s.json" % (os.getpid(), "" if features else "-plain", "" if unit == "lib" else "-" + unit))
        os.rename(out, final)
        return final
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == "__main__":
    t = time.time()
    p = ensure()
    print(p, os.path.getsize(p), "%.1fs" % (time.time() - t))
    if "--keep" not in sys.argv:
        os.remove(p)
