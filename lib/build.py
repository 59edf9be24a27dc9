"""Builds the harness (and the CLI) from /repo's current working tree.

/repo/src/rust's crates inherit from a workspace that cannot be loaded as it is, so a
workspace is generated in /verif/build/ws: copies of the crates' current sources (copied by
content, so that a change is noticed whatever its time stamps), the harness, and a manifest
whose dependency table is /repo's own."""
import fcntl
import filecmp
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FCB_REPO", "/repo")
BUILD = os.environ.get("FCB_BUILD", f"{VERIF}/build")
WS = f"{BUILD}/ws"
BWS = f"{BUILD}/bws"
TARGET = f"{BUILD}/target"
HARNESS = f"{TARGET}/debug/vharness"
CLI = f"{TARGET}/debug/fcb"
BTARGET = f"{BUILD}/btarget"  # its own: the two copies of fcb_core must not be taken for each other
BROWSER = f"{BTARGET}/debug/vwasm"


class BuildError(Exception):
    pass


def sync(src, dst, skip=(), edit=None, keep=()):
    """Make dst's content equal src's (as edited); files that already agree are left untouched."""
    os.makedirs(dst, exist_ok=True)
    seen = set()
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git") and os.path.normpath(f"{rel}/{d}") not in skip)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            s, d = os.path.join(root, f), os.path.join(dst, rel, f)
            seen.add(os.path.normpath(d))
            if os.path.islink(s) and not os.path.exists(s):
                continue
            if edit and f.endswith((".rs", ".toml")):
                put(d, edit(open(s).read()))
                continue
            if not os.path.exists(d) or os.path.getsize(s) != os.path.getsize(d) or not filecmp.cmp(s, d, shallow=False):
                shutil.copyfile(s, d)  # a fresh time stamp: cargo rebuilds
    for root, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.normpath(os.path.join(root, f))
            if p not in seen and os.path.relpath(p, dst) not in keep:
                os.unlink(p)


def manifest(members):
    text = open(f"{REPO}/src/rust/Cargo.toml").read()
    for table in ("package", "dependencies"):
        text = re.sub(rf"(?ms)^\[{table}\].*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^members\s*=\s*\[.*?\]", f"members = {members}".replace("'", '"'), text)
    # overflow checks and debug assertions stay on: they are part of how the repository is tested
    return text + "\n[profile.dev]\nopt-level = 1\ndebug = false\nincremental = true\n"


def generate():
    os.makedirs(WS, exist_ok=True)
    put(f"{WS}/Cargo.toml", manifest(["cli", "fcb_core", "harness"]))
    sync(f"{REPO}/src/rust/fcb_core", f"{WS}/fcb_core", skip=("tests/data",))
    sync(f"{REPO}/src/rust/cli", f"{WS}/cli")
    sync(f"{VERIF}/harness", f"{WS}/harness")
    lock = f"{VERIF}/harness/Cargo.lock.ws"
    if os.path.exists(lock):
        put(f"{WS}/Cargo.lock", open(lock).read(), only_missing=True)


def in_browser(text):
    """the code for wasm32, compiled for the host: the stand-ins under /verif/browser are its browser"""
    text = re.sub(r'target_arch\s*=\s*"wasm32"', "all()", text)
    text = re.sub(r"#\[async_trait\(\?Send\)\]\s*(?=impl AsyncHttpRangeClient for)", "#[async_trait]\n", text)
    return re.sub(r"(?m)^mod util;", "pub mod util;", text)


def generate_browser():
    os.makedirs(BWS, exist_ok=True)
    put(f"{BWS}/Cargo.toml", manifest(["fcb_core", "wasm", "vwasm"]))
    sync(f"{REPO}/src/rust/fcb_core", f"{BWS}/fcb_core", skip=("tests", "benches"),
         edit=lambda t: in_browser(t) if "[package]" not in t else library(t))
    sync(f"{REPO}/src/rust/wasm/src", f"{BWS}/wasm/src", edit=in_browser)
    put(f"{BWS}/wasm/Cargo.toml", open(f"{VERIF}/browser/wasm/Cargo.toml").read())
    sync(f"{VERIF}/browser/vwasm", f"{BWS}/vwasm", keep=("src/io.rs",))
    put(f"{BWS}/vwasm/src/io.rs", open(f"{VERIF}/harness/src/io.rs").read())
    sync(f"{VERIF}/browser/stubs", f"{BWS}/stubs")
    lock = f"{VERIF}/harness/Cargo.lock.ws"
    if os.path.exists(lock):
        put(f"{BWS}/Cargo.lock", open(lock).read(), only_missing=True)


def library(text):
    """a manifest without its binaries and benchmarks"""
    return re.sub(r"(?ms)^\[\[(bin|bench|example|test)\]\].*?(?=^\[|\Z)", "", text) \
        .replace('edition = "2021"', 'edition = "2021"\nautobins = false\nautobenches = false\nautotests = false', 1)


def put(path, text, only_missing=False):
    if os.path.exists(path) and (only_missing or open(path).read() == text):
        return
    with open(path, "w") as f:
        f.write(text)


def cargo_env(target=TARGET):
    env = dict(os.environ)
    env.update(PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=target, RUSTFLAGS="-Awarnings")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    return env


def build(browser=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if browser:
            generate_browser()
        else:
            generate()
        p = subprocess.run(["cargo", "build", "--offline", "-q"] + (["-p", "vwasm"] if browser else ["-p", "vharness", "-p", "fcb_cli"]),
                           cwd=BWS if browser else WS, env=cargo_env(BTARGET if browser else TARGET), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(p.stdout[-6000:])


if __name__ == "__main__":
    try:
        build()
    except BuildError as e:
        sys.stderr.write(str(e))
        sys.exit(2)
    try:
        build(browser=True)
    except BuildError as e:  # only F22 needs it, and says so itself
        sys.stderr.write(str(e))
