"""Demonstrations for the instrumenter: the crates it needs and cannot have here, as stand-ins beside the demonstration."""
import os
C = "/verif/core"
K = os.path.dirname(os.path.abspath(__file__)) + "/kit"
def rd(p): return open(p).read()
def kit(wat, js, hooks="all", functions=""):
    files = {f"kit/{n}": (f"{C}/{n}",) for n in ["wasabi_wasm", "wasm-merge", "wasm-merge-real"]}
    files["kit/wastrumentation/Cargo.toml"] = rd(f"{C}/wastrumentation/Cargo.toml").split("# Only for")[0]
    files["kit/lang-webassembly/Cargo.toml"] = rd(f"{C}/lang-webassembly/Cargo.toml")
    files["kit/demo/Cargo.toml"] = rd(f"{K}/demo/Cargo.toml")
    files["kit/demo/src/main.rs"] = rd(f"{K}/demo/src/main.rs")
    files["run.mjs"] = rd(f"{K}/run.mjs")
    files["program.wat"] = wat
    files["demo.mjs"] = "import assert from 'node:assert';\nimport { load, original } from './run.mjs';\nconst dir = process.argv[2];\n" + js
    demo = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
cp -r "$here"/. "$work/x" && cd "$work/x/kit/demo" || exit 1
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet || exit 1
mkdir "$work/out" && cd "$work/x" || exit 1
"$work/target/debug/demo" program.wat "$work/out" HOOKS || exit 1
node demo.mjs "$work/out"
""".replace("HOOKS", hooks + (" " + functions if functions else ""))
    return dict(files=files, demo=demo)

STANDINS = ["wasabi_wasm", "wasm-merge", "wasm-merge-real", "clap", "clap_derive", "clio"]
def crates(main, run='"$work/target/debug/demo"', bins=(), more={}):
    """A demonstration in Rust over the crates of the repository; `bins`: programs of the repository built with it."""
    files = {f"kit/{n}": (f"{C}/{n}",) for n in STANDINS}
    files["kit/rust-to-wasm-compiler"] = (f"{K}/rust-to-wasm-compiler",)
    files["kit/wastrumentation/Cargo.toml"] = rd(f"{C}/wastrumentation/Cargo.toml").split("# Only for")[0]
    for l in ["lang-webassembly", "lang-rust", "static-analysis"]: files[f"kit/{l}/Cargo.toml"] = rd(f"{C}/{l}/Cargo.toml")
    files["kit/demo/Cargo.toml"] = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "demo"
path = "src/main.rs"
""" + "".join(f'\n[[bin]]\nname = "{b}"\npath = "{p}"\n' for b, p in bins) + """
[dependencies]
wasm-merge = { path = "../wasm-merge" }
wasabi_wasm = { path = "../wasabi_wasm" }
wat = "1"
anyhow = "1"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
clap = { path = "../clap", features = ["derive"] }
clio = { path = "../clio", features = ["clap-parse"] }
rust-to-wasm-compiler = { path = "../rust-to-wasm-compiler" }
wastrumentation = { path = "../wastrumentation" }
wastrumentation-lang-webassembly = { path = "../lang-webassembly" }
wastrumentation-lang-rust = { path = "../lang-rust" }
wastrumentation-static-analysis = { path = "../static-analysis" }
"""
    files["kit/demo/src/main.rs"] = main
    files.update(more)
    demo = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
cp -r "$here"/. "$work/x" && cd "$work/x/kit/demo" || exit 1
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet || exit 1
cd "$work/x" || exit 1
RUN
""".replace("RUN", run)
    return dict(files=files, demo=demo)
