"""Builds rsh from /repo's working tree, and the helper programs."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("RSHV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    home = e.get("HOME", "/root")
    e["PATH"] = home + "/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    e["CARGO_INCREMENTAL"] = "1"
    e["CARGO_TARGET_DIR"] = TARGET
    e["RUSTC_WRAPPER"] = ""
    lock = os.path.join(BUILD, "lock")
    os.makedirs(lock, exist_ok=True)
    e["CARGO_RESOLVER_LOCKFILE_PATH"] = os.path.join(lock, "Cargo.lock")
    return e


def digest():
    """of everything the build of rsh reads in /repo"""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.isfile(p):
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


def build():
    """the paths of the two executables"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        if not os.path.exists(e["CARGO_RESOLVER_LOCKFILE_PATH"]):
            src = "/opt/vp/Cargo.lock"
            if not os.path.exists(src):
                src = os.path.join(REPO, "Cargo.lock")
            shutil.copyfile(src, e["CARGO_RESOLVER_LOCKFILE_PATH"])
        stamp = os.path.join(BUILD, "stamp")
        rsh = os.path.join(BUILD, "rsh")
        d = digest()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != d or not os.path.exists(rsh):
            if os.path.exists(stamp):
                os.unlink(stamp)
            # the contents decide, not the times of the files
            for p in glob.glob(os.path.join(TARGET, "debug/.fingerprint/rsh-*")):
                shutil.rmtree(p)
            r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")],
                               env=e, capture_output=True, text=True)
            if r.returncode != 0:
                raise ToolError("rsh does not build:\n" + r.stderr[-3000:])
            shutil.copyfile(os.path.join(TARGET, "debug/rsh"), rsh)
            os.chmod(rsh, 0o755)
            with open(stamp, "w") as fh:
                fh.write(d)
        kit = os.path.join(BUILD, "kit")
        src = os.path.join(VERIF, "harness/kit.c")
        kd = hashlib.sha256(open(src, "rb").read()).hexdigest()
        kstamp = os.path.join(BUILD, "kit.stamp")
        if not os.path.exists(kit) or not os.path.exists(kstamp) or open(kstamp).read() != kd:
            r = subprocess.run(["gcc", "-O1", "-static", "-Wall", "-o", kit, src], capture_output=True, text=True)
            if r.returncode != 0:
                raise ToolError("kit.c does not compile:\n" + r.stderr)
            with open(kstamp, "w") as fh:
                fh.write(kd)
        return rsh, kit


if __name__ == "__main__":
    print(*build())
