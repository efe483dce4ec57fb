"""Extraction and loading of the facts about /repo's current source."""
import hashlib
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PG_REPO", "/repo")
WORK = os.path.join(VERIF, "build")
FEATURES = "petgraph,serde"


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env(), capture_output=True, text=True, check=True).stdout.strip()
    return _sysroot


def build_driver():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "driver")
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(VERIF, "driver"), env=e, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("building the fact extractor failed:\n" + r.stderr[-4000:])
    return os.path.join(WORK, "driver", "release", "pgfacts")


def extract(features=FEATURES, repo=None):
    """Run the extractor over the current source of the repository: always a fresh compilation of
    the crate (the dependencies' metadata is cached)."""
    repo = repo or REPO
    drv = build_driver()
    tmp = tempfile.mkdtemp(prefix="pgfacts")
    try:
        out = os.path.join(tmp, "facts.json")
        e = env()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib") + ":" + e.get("LD_LIBRARY_PATH", "")
        e["PGFACTS_OUT"] = out
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        tgt = os.path.join(WORK, "deps")
        e["CARGO_TARGET_DIR"] = tgt
        # Compile from a private copy of the tracked inputs so that cargo's freshness test (which
        # goes by modification time) can never skip the crate.
        src = os.path.join(tmp, "src")
        os.makedirs(src)
        for f in ("Cargo.toml", "Cargo.lock", "README.md", "build.rs", "CHANGELOG.md"):
            p = os.path.join(repo, f)
            if os.path.exists(p):
                shutil.copy(p, src)
        for d in ("src", "benches"):
            p = os.path.join(repo, d)
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(src, d))
        os.utime(os.path.join(src, "src", "lib.rs"))
        cmd = ["cargo", "+nightly", "check", "--lib", "--offline", "--no-default-features"]
        if features:
            cmd += ["--features", features]
        os.makedirs(tgt, exist_ok=True)
        with open(os.path.join(tgt, ".pg.lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            shutil.rmtree(os.path.join(tgt, "debug", "build", "portgraph"), ignore_errors=True)
            r = subprocess.run(cmd, cwd=src, env=e, capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            raise RuntimeError("extracting facts failed:\n" + r.stderr[-4000:])
        with open(out) as fh:
            return Facts(json.load(fh))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Facts:
    def __init__(self, d):
        self.d = d
        self.bodies = {b["id"]: b for b in d["bodies"]}
        self.roots = [self.bodies[i] for i in d["roots"]]
        self.adts = {a["def"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.traits = {t["def"]: t for t in d["traits"]}
        self.consts = {c["def"]: c for c in d.get("consts", [])}
        self.by_def = {}
        self._prov = None
        for b in self.roots:
            self.by_def.setdefault(b["def"], []).append(b)

    def index(self, fkey):
        """Positions of the root bodies, by path and (where unique) by name-independent key."""
        out, keys = {}, {}
        for i, b in enumerate(self.roots):
            if "blocks" in b:
                out.setdefault(b["def"], i)
                if not b.get("derived"):
                    keys.setdefault(("key",) + fkey(b), []).append(i)
        out.update((k, v[0]) for k, v in keys.items() if len(v) == 1)
        return out

    def provided(self, d):
        """Body of a provided trait method that no impl of the crate overrides, or None."""
        if self._prov is None:
            over = set()
            for i in self.impls:
                t = i.get("trait")
                for it in i["items"]:
                    if t and it.get("fn"):
                        over.add((t.split("<")[0], it["name"]))
            self._prov = {}
            for n, t in self.traits.items():
                for it in t["items"]:
                    if it.get("fn") and it["default"] and (n, it["name"]) not in over:
                        b = self.by_def.get(it["def"])
                        if b and len(b) == 1 and "blocks" in b[0]:
                            self._prov[it["def"]] = b[0]
        return self._prov.get(d)

    def method(self, self_ty, name, trait=None):
        """Root bodies of methods `name` of impls whose self type (generics dropped) is self_ty."""
        out = []
        for b in self.roots:
            if b["name"] != name or b.get("self") is None:
                continue
            if base_ty(b["self"]) != self_ty:
                continue
            if trait is not None and (b.get("trait") or "").split("::")[-1] != trait:
                continue
            out.append(b)
        return out


def base_ty(s):
    s = s.strip()
    if s.startswith("&"):
        return s
    return s.split("<")[0]


def load(path):
    with open(path) as f:
        return Facts(json.load(f))
