"""Extraction (cached by content hash) and indexing of the MIR facts."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CGAR_REPO", "/repo")
BUILD = os.environ.get("CGAR_BUILD", os.path.join(VERIF, "build"))
TOOLCHAIN = "nightly"


class ExtractError(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"], text=True).strip()


def _hash_files(paths, h):
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())


def source_files():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            out.append(os.path.join(root, f))
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def driver_hash():
    h = hashlib.sha256()
    d = os.path.join(VERIF, "driver")
    _hash_files([os.path.join(d, "Cargo.toml")] + glob.glob(os.path.join(d, "src", "*.rs")), h)
    return h.hexdigest()[:16]


def tree_hash():
    h = hashlib.sha256()
    _hash_files(source_files(), h)
    h.update(driver_hash().encode())
    return h.hexdigest()[:24]


def cargo_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            del env[k]
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    return env


def build_driver():
    exe = os.path.join(BUILD, "driver-" + driver_hash(), "cgar-facts")
    if os.path.exists(exe):
        return exe
    tgt = os.path.join(BUILD, "driver-target")
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = tgt
    p = subprocess.run(
        ["cargo", "+" + TOOLCHAIN, "build", "--offline"],
        cwd=os.path.join(VERIF, "driver"),
        env=env,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
    )
    if p.returncode != 0:
        raise ExtractError("driver build failed:\n" + p.stdout[-4000:])
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    shutil.copy2(os.path.join(tgt, "debug", "cgar-facts"), exe)
    return exe


def extract():
    """returns path of the facts file for the current /repo working tree"""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    out = os.path.join(BUILD, "facts-%s.json" % key)
    if os.path.exists(out):
        return out
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(out):
            return out
        exe = build_driver()
        tgt = os.path.join(BUILD, "target")
        env = cargo_env()
        env["CARGO_TARGET_DIR"] = tgt
        env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        tmp = out + ".part"
        env["CGAR_FACTS_OUT"] = tmp
        # force the crate itself to be re-analysed, keep its dependencies
        for prof in ("debug",):
            for p in glob.glob(os.path.join(tgt, prof, ".fingerprint", "cgar-*")):
                shutil.rmtree(p, ignore_errors=True)
        p = subprocess.run(
            ["cargo", "+" + TOOLCHAIN, "check", "--lib", "--offline", "--locked"],
            cwd=REPO,
            env=env,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
        )
        if p.returncode != 0:
            raise ExtractError("the crate does not compile:\n" + p.stdout[-4000:])
        if not os.path.exists(tmp):
            raise ExtractError("extractor produced no facts:\n" + p.stdout[-2000:])
        # keep only the newest few fact files
        old = sorted(glob.glob(os.path.join(BUILD, "facts-*.json")), key=os.path.getmtime)
        for f in old[:-3]:
            os.unlink(f)
        os.rename(tmp, out)
        return out
    finally:
        lock.close()


def tup(x):
    if isinstance(x, list):
        return tuple(tup(y) for y in x)
    return x


class Fn:
    __slots__ = (
        "id path name kind pub file line end generics impl trait parent nargs upvars locals blocks promoted expn "
        "loops rpo succ cache"
    ).split()


class Facts:
    def __init__(self, d):
        self.fns = {}
        self.by_path = {}
        self.by_name = {}
        for f in d["fns"]:
            o = Fn()
            for k in f:
                setattr(o, k, f[k])
            o.locals = [(tup(t), n) for t, n in f["locals"]]
            o.loops = o.rpo = o.succ = None
            o.cache = {}
            self.fns[o.id] = o
            self.by_path.setdefault(o.path, []).append(o)
            self.by_name.setdefault(o.name, []).append(o)
        self.impls = d["impls"]
        self.impl_by_id = {}
        self.trait_impls = {}
        for im in self.impls:
            im["self"] = tup(im["self"])
            self.impl_by_id[im["id"]] = im
            im["map"] = {n: i for n, i, t in im["items"]}
            im["types"] = {n: tup(t) for n, i, t in im["items"] if t}
            if im["trait"]:
                im["trait"]["args"] = tup(im["trait"]["args"])
                self.trait_impls.setdefault(im["trait"]["path"], []).append(im)
        self.adts = {}
        for a in d["adts"]:
            self.adts[a["path"]] = {
                "kind": a["kind"],
                "generics": a["generics"],
                "variants": [
                    (v["name"], [(f[0], tup(f[1]), f[2]) for f in v["fields"]]) for v in a["variants"]
                ],
            }
        self.traits = {t["path"]: t for t in d["traits"]}
        self.statics = d["statics"]
        self.unsafe = d["unsafe"]
        self.auto = d["auto"]

    def impl_fn_trait(self, fn):
        if fn.impl is None:
            return None
        im = self.impl_by_id[fn.impl]
        return im["trait"]["path"] if im["trait"] else None


_loaded = None


def load():
    global _loaded
    if _loaded is None:
        p = extract()
        with open(p) as f:
            _loaded = Facts(json.load(f))
    return _loaded


# ------------------------------------------------------------------ types
def subst(t, env):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "param":
        return env.get(t[1], t)
    if t[0] == "cparam":
        v = env.get(t[1])
        if v is None:
            return t
        return v
    return tuple(subst(x, env) for x in t)


def unify(pat, t, env, vars):
    """match pattern type pat (with impl generics `vars`) against t"""
    if isinstance(pat, tuple) and pat and pat[0] in ("param", "cparam") and pat[1] in vars:
        if pat[1] in env:
            return env[pat[1]] == t
        env[pat[1]] = t
        return True
    if isinstance(pat, tuple) and isinstance(t, tuple):
        if len(pat) != len(t):
            return False
        return all(unify(a, b, env, vars) for a, b in zip(pat, t))
    return pat == t


def strip_ref(t):
    while isinstance(t, tuple) and t and t[0] == "ref":
        t = t[2]
    return t


if __name__ == "__main__":
    print(extract())
