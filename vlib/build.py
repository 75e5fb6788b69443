"""Build the code under test from /repo's working tree, offline.

Two artefacts, both compiled straight from /repo/src/lib.rs:

* the Python extension `_fast.so` (release semantics, as shipped: no overflow
  checks, panics unwind), placed beside symlinks to /repo/src/gufo's Python
  files, so that checks import the real package of the current tree;
* the Rust harness in /verif/harness, which links the same sources as an rlib.

The extension is built through a generated wrapper manifest only to replace
the `rand` crate's thread generator with a seedable one (so that a case is a
pure function of its description).  If that build fails for whatever reason
the plain /repo manifest is used, and checks go on without the seam.
"""

import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
import tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
PYTHON = "/usr/bin/python3.12"


class BuildError(Exception):
    pass


def cargo_env(target):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_PROFILE", "RUSTFLAGS", "PYO3_")):
            del env[k]
    env.update(
        RUSTUP_TOOLCHAIN=TOOLCHAIN,
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=target,
        CARGO_INCREMENTAL="0",
        RUSTC_WRAPPER="",
        PYO3_PYTHON=PYTHON,
        RUST_BACKTRACE="0",
    )
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    return env


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fp:
                    h.update(fp.read())
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            with open(p, "rb") as fp:
                h.update(fp.read())
    return h.hexdigest()


def write_if_changed(path, text):
    try:
        with open(path) as fp:
            if fp.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fp:
        fp.write(text)


def toml_value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, list):
        return "[" + ", ".join(toml_value(x) for x in v) + "]"
    if isinstance(v, dict):
        return (
            "{"
            + ", ".join(f"{json.dumps(k)} = {toml_value(x)}" for k, x in v.items())
            + "}"
        )
    raise BuildError(f"cannot render {v!r}")


def repo_manifest():
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as fp:
        return tomllib.load(fp)


def wrapper_manifest(crate_type, deps, rand_path=None, features=None, name=None):
    m = repo_manifest()
    pkg = m["package"]
    out = ["[package]"]
    out.append(f"name = {json.dumps(name or pkg['name'])}")
    out.append(f"version = {json.dumps(pkg['version'])}")
    out.append(f"edition = {json.dumps(pkg.get('edition', '2021'))}")
    out += ["", "[lib]"]
    out.append(f"name = {json.dumps(m['lib']['name'])}")
    out.append(f"path = {json.dumps(os.path.join(REPO, 'src', 'lib.rs'))}")
    out.append(f"crate-type = {toml_value(crate_type)}")
    out.append("test = false\ndoctest = false\nbench = false")
    out += ["", "[dependencies]"]
    for k, v in deps.items():
        out.append(f"{k} = {toml_value(v)}")
    if m.get("features"):
        out += ["", "[features]"]
        for k, v in m["features"].items():
            out.append(f"{k} = {toml_value(v)}")
    if rand_path:
        out += ["", "[patch.crates-io]", f"rand = {{ path = {json.dumps(rand_path)} }}"]
    out += [
        "",
        "[profile.release]",
        "lto = false",
        "codegen-units = 16",
        "incremental = false",
        "debug = false",
        "",
        "[workspace]",
        "",
    ]
    return "\n".join(out)


RAND_SEAM = r'''
// ---- verification seam: a seedable thread generator -------------------
// State lives in a block of memory owned by the harness, whose address is
// passed in GUFO_VERIF_RNG (decimal).  Layout (u64 words):
//  0: enabled, 1: splitmix64 state, 2: u32 queue length, 3: u32 queue pos,
//  4: u64 queue length, 5: u64 queue pos, 6: calls,
//  16..272: u32 queue, 272..528: u64 queue
mod verif_seam {
    use std::sync::OnceLock;
    static BLOCK: OnceLock<usize> = OnceLock::new();
    fn block() -> Option<*mut u64> {
        let p = *BLOCK.get_or_init(|| {
            std::env::var("GUFO_VERIF_RNG")
                .ok()
                .and_then(|x| x.parse::<usize>().ok())
                .unwrap_or(0)
        });
        if p == 0 {
            return None;
        }
        let p = p as *mut u64;
        if unsafe { p.read_volatile() } == 0 {
            return None;
        }
        Some(p)
    }
    fn step(p: *mut u64) -> u64 {
        unsafe {
            let s = p.add(1).read_volatile().wrapping_add(0x9e3779b97f4a7c15);
            p.add(1).write_volatile(s);
            let n = p.add(6).read_volatile();
            p.add(6).write_volatile(n.wrapping_add(1));
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        }
    }
    fn queued(p: *mut u64, len: usize, base: usize) -> Option<u64> {
        unsafe {
            let n = p.add(len).read_volatile();
            let i = p.add(len + 1).read_volatile();
            if i < n && i < 256 {
                p.add(len + 1).write_volatile(i + 1);
                return Some(p.add(base + i as usize).read_volatile());
            }
        }
        None
    }
    pub(super) fn u32() -> Option<u32> {
        let p = block()?;
        let r = step(p) as u32;
        Some(queued(p, 2, 16).map(|x| x as u32).unwrap_or(r))
    }
    pub(super) fn u64() -> Option<u64> {
        let p = block()?;
        let r = step(p);
        Some(queued(p, 4, 272).unwrap_or(r))
    }
    pub(super) fn fill(dest: &mut [u8]) -> bool {
        match block() {
            Some(p) => {
                for c in dest.chunks_mut(8) {
                    let v = step(p).to_le_bytes();
                    c.copy_from_slice(&v[..c.len()]);
                }
                true
            }
            None => false,
        }
    }
}
'''


def make_rand():
    """Copy the cached rand crate, with its thread generator seedable."""
    src = sorted(
        glob.glob("/root/.cargo/registry/src/*/rand-0.9.*/src/rngs/thread.rs")
    )
    if not src:
        raise BuildError("no cached rand 0.9")
    root = os.path.dirname(os.path.dirname(os.path.dirname(src[-1])))
    dst = os.path.join(BUILD, "rand")
    with open(src[-1]) as fp:
        text = fp.read()
    head = "unsafe { &mut *self.rng.get() };\n        rng."
    for fn, pre in (
        ("next_u32()", "if let Some(x) = verif_seam::u32() { return x; }"),
        ("next_u64()", "if let Some(x) = verif_seam::u64() { return x; }"),
        ("fill_bytes(dest)", "if verif_seam::fill(dest) { return; }"),
    ):
        if head + fn not in text:
            raise BuildError("unexpected rand layout")
        text = text.replace(
            head + fn, "unsafe { &mut *self.rng.get() };\n        " + pre + "\n        rng." + fn
        )
    text += RAND_SEAM
    stamp = os.path.join(dst, ".verif-stamp")
    want = hashlib.sha256(text.encode()).hexdigest() + root
    if os.path.exists(stamp) and open(stamp).read() == want:
        return dst
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    shutil.copytree(root, dst)
    for junk in ("Cargo.lock", ".cargo-ok", ".cargo_vcs_info.json"):
        p = os.path.join(dst, junk)
        if os.path.exists(p):
            os.remove(p)
    p = os.path.join(dst, "src", "rngs", "thread.rs")
    with open(p, "w") as fp:
        fp.write(text)
    with open(stamp, "w") as fp:
        fp.write(want)
    return dst


def run_cargo(args, target, log, cwd, wrapper=""):
    with open(log, "w") as fp:
        r = subprocess.run(
            ["cargo", *args], cwd=cwd, env=dict(cargo_env(target), RUSTC_WRAPPER=wrapper), stdout=fp, stderr=subprocess.STDOUT
        )
    if r.returncode != 0:
        with open(log) as fp:
            raise BuildError(f"cargo {' '.join(args)} failed:\n" + fp.read()[-6000:])


def force_stale(target, want):
    """Cargo goes by mtime; drop its fingerprint when the contents changed."""
    stamp = os.path.join(target, ".verif-tree")
    if os.path.exists(stamp) and open(stamp).read() == want:
        return stamp
    for d in glob.glob(os.path.join(target, "*", ".fingerprint", "gufo*")):
        shutil.rmtree(d)
    for d in glob.glob(os.path.join(target, "*", ".fingerprint", "harness*")):
        shutil.rmtree(d)
    return stamp


def build_ext(want):
    """Return (path of the .so, whether the generator seam is present)."""
    wrap = os.path.join(BUILD, "ext")
    target = os.path.join(BUILD, "target-ext")
    os.makedirs(wrap, exist_ok=True)
    os.makedirs(target, exist_ok=True)
    stamp = force_stale(target, want)
    libname = "lib" + repo_manifest()["lib"]["name"] + ".so"
    try:
        rand = make_rand()
        m = repo_manifest()
        write_if_changed(
            os.path.join(wrap, "Cargo.toml"),
            wrapper_manifest(["cdylib"], m["dependencies"], rand_path=rand),
        )
        shutil.copyfile(
            os.path.join(REPO, "Cargo.lock"), os.path.join(wrap, "Cargo.lock")
        )
        run_cargo(
            ["build", "--release", "--lib", "--offline"],
            target,
            os.path.join(BUILD, "ext.log"),
            wrap,
        )
        so = os.path.join(target, "release", libname)
        seam = True
    except BuildError as e:
        sys.stderr.write(f"seam build failed, using the plain manifest: {str(e)[-1500:]}\n")
        target = os.path.join(BUILD, "target-plain")
        os.makedirs(target, exist_ok=True)
        force_stale(target, want)
        run_cargo(
            ["build", "--release", "--lib", "--offline", "--manifest-path",
             os.path.join(REPO, "Cargo.toml")],
            target,
            os.path.join(BUILD, "ext-plain.log"),
            BUILD,
        )
        with open(os.path.join(target, ".verif-tree"), "w") as fp:
            fp.write(want)
        return os.path.join(target, "release", libname), False
    with open(stamp, "w") as fp:
        fp.write(want)
    return so, seam


def build_harness(want):
    """Build the Rust harness; returns the binary's path."""
    hdir = os.path.join(BUILD, "hx")
    lib = os.path.join(hdir, "lib")
    target = os.path.join(BUILD, "target-fz")
    os.makedirs(lib, exist_ok=True)
    os.makedirs(target, exist_ok=True)
    stamp = force_stale(target, want)
    m = repo_manifest()
    deps = dict(m["dependencies"])
    p = deps.get("pyo3")
    if isinstance(p, dict):
        p = dict(p)
        p["features"] = [x for x in p.get("features", []) if x != "extension-module"]
        deps["pyo3"] = p
    text = wrapper_manifest(["rlib"], deps, name="gufo_snmp")
    text = text[: text.index("[profile.release]")]
    write_if_changed(os.path.join(lib, "Cargo.toml"), text)
    write_if_changed(
        os.path.join(hdir, "Cargo.toml"),
        f"""[package]
name = "harness"
version = "0.0.0"
edition = "2024"

[[bin]]
name = "harness"
path = {json.dumps(os.path.join(VERIF, "harness", "src", "main.rs"))}
test = false

[dependencies]
gufo_snmp = {{ path = "lib" }}
pyo3 = {toml_value(deps.get("pyo3", "0.24"))}

[profile.release]
lto = false
codegen-units = 16
opt-level = 2
debug = false

[workspace]
members = ["."]
exclude = ["lib"]
""",
    )
    shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(hdir, "Cargo.lock"))
    args = ["build", "--release", "--offline"]
    try:
        run_cargo(
            args, target, os.path.join(BUILD, "hx.log"), hdir,
            wrapper=os.path.join(VERIF, "vlib", "rustc_cov.sh"),
        )
    except BuildError as e:
        # without edge counters the fuzzing modes mutate blindly
        sys.stderr.write(f"instrumented build failed: {str(e)[-1500:]}\n")
        target = os.path.join(BUILD, "target-hx-plain")
        os.makedirs(target, exist_ok=True)
        stamp = force_stale(target, want)
        run_cargo(args, target, os.path.join(BUILD, "hx.log"), hdir)
    with open(stamp, "w") as fp:
        fp.write(want)
    return os.path.join(target, "release", "harness")


def make_package(so):
    """A directory to import `gufo.snmp` from: /repo's files, our extension."""
    pkg = os.path.join(BUILD, f"pkg-{os.getpid()}")
    if os.path.isdir(pkg):
        shutil.rmtree(pkg)
    src = os.path.join(REPO, "src", "gufo")
    dst = os.path.join(pkg, "gufo")
    os.makedirs(os.path.join(dst, "snmp"))
    for f in os.listdir(src):
        if f != "snmp" and f != "__pycache__":
            os.symlink(os.path.join(src, f), os.path.join(dst, f))
    for f in os.listdir(os.path.join(src, "snmp")):
        if f == "__pycache__" or re.match(r"_fast\b.*\.so$", f):
            continue
        os.symlink(os.path.join(src, "snmp", f), os.path.join(dst, "snmp", f))
    shutil.copyfile(so, os.path.join(dst, "snmp", "_fast.so"))
    return pkg


def build_shim():
    """The library that makes sends fail, or None when it cannot be built."""
    src = os.path.join(VERIF, "vlib", "shim.c")
    with open(src, "rb") as fp:
        h = hashlib.sha256(fp.read()).hexdigest()[:16]
    so = os.path.join(BUILD, f"shim-{h}.so")
    if not os.path.exists(so):
        tmp = so + f".{os.getpid()}"
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], capture_output=True)
        if r.returncode:
            return None
        os.rename(tmp, so)
    return so


def build(ext=True, harness=False):
    """Build what is asked for; returns a dict describing it."""
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    out = {"pkg": None, "seam": False, "harness": None, "harness_error": None, "shim": None}
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash()
        hx_thread = None
        if harness:

            def work():
                try:
                    out["harness"] = build_harness(want)
                except Exception as e:  # noqa: BLE001
                    out["harness_error"] = str(e)

            hx_thread = threading.Thread(target=work)
            hx_thread.start()
        try:
            if ext:
                so, out["seam"] = build_ext(want)
                out["pkg"] = make_package(so)
                out["shim"] = build_shim()
        finally:
            if hx_thread:
                hx_thread.join()
    out["build_s"] = round(time.time() - t0, 2)
    return out


if __name__ == "__main__":
    print(json.dumps(build(harness="--harness" in sys.argv), indent=1))
