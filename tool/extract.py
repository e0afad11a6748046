"""Build the driver, run it on /repo's current source and load the dump.

The dump is cached under /verif/.build by a hash of everything it depends on (the driver's
source, /repo's sources and manifests), so that checks which run one after another on the same
tree share it; any change to the source makes a new dump.
"""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LS_REPO", "/repo")
BUILD = os.environ.get("LS_BUILD", os.path.join(VERIF, ".build"))
TOOLCHAIN = "+nightly"

# Functions of other crates whose bodies the analyses may look into.
DESCEND = ",".join([
    "core::option", "core::result", "core::cmp", "core::ops", "core::tuple", "core::clone",
    "core::convert", "T as core::convert", "core::bool", "core::default", "core::num", "core::f64", "core::mem",
    "core::iter", "core::array", "alloc::vec::Vec<T>", "core::ptr::non_null", "core::slice",
    "kurbo", "polycool", "arrayvec",
])

ENV_KEEP = ("HOME", "PATH", "RUSTUP_HOME", "CARGO_HOME", "TMPDIR", "LANG")


class ExtractError(Exception):
    pass


def _env(extra=None):
    e = {k: v for k, v in os.environ.items() if k in ENV_KEEP}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    if extra:
        e.update(extra)
    return e


def _run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ExtractError("%s failed (%s):\n%s" % (what, " ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def _hash_tree(h, root, sub, exts):
    base = os.path.join(root, sub)
    if os.path.isfile(base):
        h.update(sub.encode() + b"\0" + open(base, "rb").read() + b"\0")
        return
    for d, ds, fs in sorted(os.walk(base)):
        ds.sort()
        if "target" in ds:
            ds.remove("target")
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0" + open(p, "rb").read() + b"\0")


def sysroot():
    return _run(["rustc", TOOLCHAIN, "--print", "sysroot"], VERIF, _env(), "sysroot").strip()


def build_driver():
    tdir = os.path.join(BUILD, "driver")
    _run(["cargo", TOOLCHAIN, "build", "--offline", "--locked"], os.path.join(VERIF, "driver"),
         _env({"CARGO_TARGET_DIR": tdir}), "building the driver")
    return os.path.join(tdir, "debug", "mirdump")


def _front(features):
    """A copy of the front crate for the given features of the library and repository path."""
    name = "front-" + ("default" if not features else "-".join(features))
    d = os.path.join(BUILD, name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    src = os.path.join(VERIF, "front")
    toml = open(os.path.join(src, "Cargo.toml")).read().replace("/repo", REPO)
    if features:
        toml = toml.replace('path = "%s"' % REPO, 'path = "%s", features = [%s]' % (
            REPO, ", ".join('"%s"' % f for f in features)))
    open(os.path.join(d, "Cargo.toml"), "w").write(toml)
    shutil.copy(os.path.join(src, "src/lib.rs"), os.path.join(d, "src/lib.rs"))
    if not os.path.exists(os.path.join(d, "Cargo.lock")) and not features:
        shutil.copy(os.path.join(src, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return d


def dump_path(features=()):
    h = hashlib.sha256()
    h.update(repr((REPO, features, DESCEND)).encode())
    for s in ("src", "Cargo.toml", "build.rs"):
        if os.path.exists(os.path.join(REPO, s)):
            _hash_tree(h, REPO, s, (".rs", ".toml"))
    _hash_tree(h, VERIF, "driver", (".rs", ".toml"))
    return os.path.join(BUILD, "dump-%s.json" % h.hexdigest()[:24])


def dump(features=()):
    """Path of an up-to-date dump of the library, with the given cargo features."""
    os.makedirs(BUILD, exist_ok=True)
    out = dump_path(features)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        drv = build_driver()
        front = _front(features)
        tdir = os.path.join(BUILD, "target")
        for d, ds, fs in list(os.walk(tdir)):
            for x in list(ds):
                if x == "linesweeper" or x.startswith("linesweeper-"):
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                    ds.remove(x)
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            os.unlink(tmp)
        env = _env({
            "CARGO_TARGET_DIR": tdir, "RUSTC_WRAPPER": drv, "MIRDUMP_CRATE": "linesweeper",
            "MIRDUMP_OUT": tmp, "MIRDUMP_DESCEND": DESCEND,
            "RUSTFLAGS": "-Zalways-encode-mir", "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
        })
        _run(["cargo", TOOLCHAIN, "check", "--offline"], front, env, "checking linesweeper")
        if not os.path.exists(tmp):
            shutil.rmtree(tdir, ignore_errors=True)
            _run(["cargo", TOOLCHAIN, "check", "--offline"], front, env, "checking linesweeper")
        if not os.path.exists(tmp):
            raise ExtractError("the driver wrote no dump")
        # keep the cache small
        olds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)
                       if x.startswith("dump-") and x.endswith(".json")), key=os.path.getmtime)
        for x in olds[:-6]:
            os.unlink(x)
        os.rename(tmp, out)
    return out


def load(features=()):
    with open(dump(features)) as f:
        return json.load(f)


if __name__ == "__main__":
    p = dump(tuple(sys.argv[1:]))
    print(p, os.path.getsize(p))
