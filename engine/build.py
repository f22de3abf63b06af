"""Builds the MIR dump of /repo's current working tree (driver -> cargo check -> JSON)."""
import fcntl
import os
import shutil
import subprocess
import tempfile
import contextlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BLD = os.path.join(ROOT, ".build")
REPO = "/repo"


class BuildError(Exception):
    pass


@contextlib.contextmanager
def lock(name):
    os.makedirs(BLD, exist_ok=True)
    with open(os.path.join(BLD, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True,
                          check=True).stdout.strip()


def env_base():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR",
              "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def driver():
    """path of the driver binary, built if missing or stale"""
    tgt = os.path.join(BLD, "driver")
    exe = os.path.join(tgt, "release", "mn-driver")
    src = [os.path.join(ROOT, "driver", x) for x in ("Cargo.toml", "src/main.rs", "src/dump.rs")]
    with lock("driver"):
        if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in src):
            e = env_base()
            e["CARGO_TARGET_DIR"] = tgt
            r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"],
                               cwd=os.path.join(ROOT, "driver"), env=e, capture_output=True, text=True)
            if r.returncode or not os.path.exists(exe):
                raise BuildError("the MIR driver does not build:\n" + r.stderr[-3000:])
            os.utime(exe)
    return exe


def dump(config="default"):
    """Dump the program; returns the path of a temporary JSON file (the caller removes it)."""
    exe = driver()
    sr = sysroot()
    tgt = os.path.join(BLD, "harness-" + config)
    with lock("harness-" + config):
        e = env_base()
        e["CARGO_TARGET_DIR"] = tgt
        e["RUSTC_WRAPPER"] = exe
        e["MN_SYSROOT"] = sr
        e["LD_LIBRARY_PATH"] = sr + "/lib"
        fd, out = tempfile.mkstemp(prefix="mn-", suffix=".json", dir=BLD)
        os.close(fd)
        os.unlink(out)
        e["MN_DUMP"] = out
        # cargo's freshness cache would skip the wrapper: forget the two crates whose MIR is wanted
        for d in (os.path.join(tgt, "debug", ".fingerprint"), os.path.join(tgt, "debug", "build")):
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n.startswith(("mixed-num", "mn-harness")):
                        shutil.rmtree(os.path.join(d, n))
        # the harness is copied so that its lock file and sources stay as committed
        h = os.path.join(BLD, "harness-src-" + config)
        os.makedirs(h + "/src", exist_ok=True)
        for f in ("Cargo.toml", "src/lib.rs"):
            shutil.copyfile(os.path.join(ROOT, "harness", f), os.path.join(h, f))
        lk = os.path.join(ROOT, "harness", "Cargo.lock")
        if os.path.exists(lk):
            shutil.copyfile(lk, os.path.join(h, "Cargo.lock"))
        cmd = ["cargo", "+nightly", "check", "--offline"]
        if config == "std":
            # the other configuration differs in every switch of the build at once: the std feature, and no debug assertions
            cmd += ["--features", "std"]
            e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
            e["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "true"
        r = subprocess.run(cmd, cwd=h, env=e, capture_output=True, text=True)
        if not r.returncode and not os.path.exists(out):
            shutil.rmtree(tgt)
            r = subprocess.run(cmd, cwd=h, env=e, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("the crate does not compile (%s configuration):\n%s" % (config, r.stderr[-3000:]))
        if not os.path.exists(out):
            raise BuildError("the compiler produced no dump")
        return out


def witness(config="default"):
    """Compile the witness crate; returns [(line number, message)] of the errors located in it."""
    import json
    tgt = os.path.join(BLD, "witness")
    with lock("witness"):
        w = os.path.join(BLD, "witness-src")
        os.makedirs(w + "/src", exist_ok=True)
        for f in ("Cargo.toml", "Cargo.lock", "src/lib.rs"):
            shutil.copyfile(os.path.join(ROOT, "witness", f), os.path.join(w, f))
        e = env_base()
        e["CARGO_TARGET_DIR"] = tgt
        cmd = ["cargo", "+nightly", "check", "--offline", "--message-format=json"]
        if config == "std":
            cmd += ["--features", "std"]
        # cargo compares modification times: the two crates are always compiled anew
        for d in (os.path.join(tgt, "debug", ".fingerprint"), os.path.join(tgt, "debug", "build")):
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n.startswith(("mixed-num", "mn-witness")):
                        shutil.rmtree(os.path.join(d, n))
        r = subprocess.run(cmd, cwd=w, env=e, capture_output=True, text=True)
        out, other, done = [], [], False
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") == "mn_witness":
                done = True
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            if m["target"]["name"].replace("-", "_") != "mn_witness":
                other.append(m["message"]["rendered"])
                continue
            ls = [s["line_start"] for s in m["message"]["spans"] if s["is_primary"] and s["file_name"].endswith("lib.rs") and
                  not os.path.isabs(s["file_name"])]
            if ls:
                out.append((ls[0], m["message"]["message"]))
        if other:
            raise BuildError("the crate does not compile (%s configuration):\n%s" % (config, other[0][:3000]))
        if r.returncode and not out or not r.returncode and not done:
            raise BuildError("the witnesses were not compiled:\n" + r.stderr[-3000:])
        return out


def load(config="default"):
    import mir
    p = dump(config)
    try:
        return mir.Program(p)
    finally:
        os.unlink(p)


if __name__ == "__main__":
    driver()
    for c in ("default", "std"):
        os.unlink(dump(c))
        witness(c)
    print("setup complete")
