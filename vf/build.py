"""Builds the MIR dumping driver and dumps the programs of /repo's current tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.environ.get("VF_CACHE", os.path.join(VERIF, ".cache"))
NIGHTLY = None
WS = {"elusiv": ("elusiv", "elusiv", "elusiv", []),
      "warden": ("elusiv-warden-network", "elusiv_warden_network", "elusiv-warden-network", []),
      "elusiv_mainnet": ("elusiv", "elusiv", "elusiv", ["--no-default-features", "--features", "mainnet"]),
      "warden_mainnet": ("elusiv-warden-network", "elusiv_warden_network", "elusiv-warden-network", ["--no-default-features", "--features", "mainnet"])}


def sysroot():
    global NIGHTLY
    if NIGHTLY is None:
        NIGHTLY = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    return NIGHTLY


def source_hash(dirs, exts=(".rs", ".toml", ".lock", ".json", ".txt")):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d, followlinks=False):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    if os.path.islink(p) and not os.path.exists(p):
                        continue
                    h.update(os.path.relpath(p, d).encode() + b"\0")
                    h.update(hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def run(cmd, env=None, cwd=None, log=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise SystemExit("command failed: " + " ".join(cmd))
    return p.stdout


def driver():
    h = source_hash([os.path.join(VERIF, "driver")])
    out = os.path.join(CACHE, "mirdump-" + h[:16])
    with Lock("driver"):
        if not os.path.exists(out):
            td = os.path.join(CACHE, "drv")
            run(["cargo", "build", "--offline"], cwd=os.path.join(VERIF, "driver"),
                env={"RUSTUP_TOOLCHAIN": "nightly", "CARGO_TARGET_DIR": td, "CARGO_NET_OFFLINE": "true"})
            shutil.copy(os.path.join(td, "debug", "mirdump"), out + ".tmp")
            os.rename(out + ".tmp", out)
    return out


def dump(which):
    ws, crate, pkg, feats = WS[which]
    dirs = [os.path.join(REPO, x) for x in sorted(os.listdir(REPO)) if os.path.isdir(os.path.join(REPO, x)) and not x.startswith(".") and x not in ("target",)]
    h = hashlib.sha256((source_hash(dirs) + source_hash([os.path.join(VERIF, "driver")]) + which).encode()).hexdigest()
    out = os.path.join(CACHE, "%s-%s.json" % (which, h[:20]))
    if os.path.exists(out):
        return out, 0.0
    drv = driver()
    t = time.time()
    with Lock("dump-" + which):
        if os.path.exists(out):
            return out, 0.0
        td = os.path.join(CACHE, "t_" + which)
        fp = os.path.join(td, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith("elusiv"):
                    shutil.rmtree(os.path.join(fp, x))
        tmp = out + ".tmp"
        env = {"VF_NIGHTLY": sysroot(), "VF_DRIVER": drv, "RUSTC": os.path.join(VERIF, "bin", "rustc-wrap"),
               "CARGO_NET_OFFLINE": "true", "RUSTC_BOOTSTRAP": "1",
               "MIRDUMP_WORKSPACE": "elusiv,elusiv_types,elusiv_utils,elusiv_interpreter,elusiv_computation,elusiv_warden_network",
               "MIRDUMP_CRATE": crate, "MIRDUMP_OUT": tmp, "CARGO_TARGET_DIR": td, "RUSTUP_TOOLCHAIN": "1.72.1",
               "RUSTFLAGS": "", "RUSTC_WRAPPER": "", "RUSTC_WORKSPACE_WRAPPER": ""}
        run(["cargo", "check", "--offline", "-p", pkg] + feats, cwd=os.path.join(REPO, ws), env=env)
        if not os.path.exists(tmp):
            raise SystemExit("no dump produced for " + which)
        for x in os.listdir(CACHE):
            if x.startswith(which + "-") and x.endswith(".json") and os.path.getmtime(os.path.join(CACHE, x)) < time.time() - 86400:
                os.unlink(os.path.join(CACHE, x))
        os.rename(tmp, out)
    return out, time.time() - t
