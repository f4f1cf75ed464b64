#!/usr/bin/env python3
"""Mirror the crates of /repo into /verif/build/ws so that the simulator can compile all of them offline.

Sources are copied byte for byte (a file is only rewritten when its content differs, so cargo rebuilds exactly
what changed); only the manifests are regenerated: dependencies from the unreachable git repository dfinity/ic
point at the stand-ins in /verif/sim/stubs, dev-dependencies are dropped, dependencies no source mentions are
dropped.  The four wasm files that lsm_client.rs embeds (absent from the repository) become fixed stand-ins.
"""
import hashlib
import os
import re
import shutil
import sys

REPO = os.environ.get("SIM_REPO", "/repo")
WS = sys.argv[1] if len(sys.argv) > 1 else "/verif/build/ws"
STUBS = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim", "stubs"))


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except FileNotFoundError:
        pass
    with open(path, "wb") as f:
        f.write(data)


def mirror(src, dst):
    wanted = set()
    text = ""
    for root, dirs, files in os.walk(src):
        dirs.sort()
        for name in sorted(files):
            full = os.path.join(root, name)
            rel = os.path.relpath(full, src)
            with open(full, "rb") as f:
                data = f.read()
            put(os.path.join(dst, rel), data)
            wanted.add(os.path.join(dst, rel))
            if name.endswith(".rs"):
                text += data.decode("utf-8", "replace")
    for root, _, files in os.walk(dst):
        for name in files:
            p = os.path.join(root, name)
            if p not in wanted:
                os.unlink(p)
    return text


def manifest(src, text):
    """[package] and [dependencies] of a manifest, offline."""
    out, section = [], None
    for line in open(src):
        m = re.match(r"\s*\[(.+?)\]\s*$", line)
        if m:
            section = m.group(1)
            if section in ("package", "dependencies", "features", "lib"):
                out.append(line)
            continue
        if section in ("package", "features", "lib"):
            out.append(line)
        elif section == "dependencies":
            m = re.match(r"\s*([\w-]+)\s*=", line)
            if not m:
                continue
            name = m.group(1)
            if name == "evm_rpc_client":
                out.append('evm_rpc_client = { path = "../evm_rpc_client" }\n')
            elif "github.com/dfinity/ic" in line:
                out.append('%s = { path = "%s/%s" }\n' % (name, STUBS, name))
            elif re.search(r"\b%s\b" % name.replace("-", "_"), text):
                out.append(line)
    return "".join(out)


def main():
    tools = os.path.dirname(os.path.abspath(__file__))
    vendor = os.path.abspath(os.path.join(tools, "..", "sim", "vendor"))
    for pkg in ("evm_rpc_client", "minter"):
        text = mirror(f"{REPO}/{pkg}/src", f"{WS}/{pkg}/src")
        deps = manifest(f"{REPO}/{pkg}/Cargo.toml", text)
        put(f"{WS}/{pkg}/Cargo.toml", (deps + "\n[workspace]\n").encode())
        if pkg == "minter":
            for rel in sorted(set(re.findall(r'include_(?:bytes|str)!\(\s*"\.\./\.\./([^"]+)"', text))):
                real = f"{REPO}/{rel}"
                data = open(real, "rb").read() if os.path.exists(real) else (b"stand-in for " + rel.encode())
                put(f"{WS}/{rel}", data)
            canister(deps, vendor, tools)


def canister(deps, vendor, tools):
    """The canister image: minter/src/main.rs as the root of a shared library on the simulated system API."""
    mirror(f"{REPO}/minter/src", f"{WS}/canister/src")
    body = deps[deps.index("[dependencies]") + len("[dependencies]"):]
    head = """[package]
name = "canister"
version = "0.1.0"
edition = "2021"
autobins = false

[lib]
crate-type = ["cdylib"]
path = "src/main.rs"

[dependencies]
evm_minter = { path = "../minter" }
ic0 = "0.23.0"
"""
    tail = "\n[patch.crates-io]\n" + "".join(
        '%s = { path = "%s/%s" }\n' % (n, vendor, n)
        for n in ("ic0", "ic-cdk", "ic-cdk-timers", "ic-stable-structures")) + """
[workspace]

# Semantics of the shipped canister: release arithmetic, no debug assertions.
[profile.dev]
opt-level = 1
debug = 0
debug-assertions = false
overflow-checks = false
incremental = true
panic = "unwind"

[profile.dev.package."*"]
opt-level = 2

[profile.dev.package.evm_minter]
opt-level = 1

[profile.dev.build-override]
opt-level = 0
"""
    put(f"{WS}/canister/Cargo.toml", (head + body.lstrip("\n") + tail).encode())
    put(f"{WS}/canister/.cargo/config.toml", b"""[env]
Ankr_Api_Key = "sim-ankr-key"
Llama_Api_Key = "sim-llama-key"

[build]
target-dir = "../../target"
""")
    lock = os.path.join(tools, "..", "sim", "canister.lock")
    if os.path.exists(lock):
        put(f"{WS}/canister/Cargo.lock", open(lock, "rb").read())


main()
