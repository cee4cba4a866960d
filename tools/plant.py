#!/usr/bin/env python3
"""plant.py NEW ID PROP FILE  <<< json {"edits":[[file,old,new],...], "needs":..., "what":..., "demo": rust}
Writes /verif/seeded/ID from an edit of a scratch copy of /repo."""
import json, os, subprocess, sys, shutil, tempfile
def make(id, prop, edits, needs, what, demo):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="vxplant")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in edits:
        p = f"{w}/r/src/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (id, f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.rs", "w").write(demo)
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# runs demo.rs against the crate in /repo, in a scratch directory of its own
set -e
here=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/vx-demo-{id}
mkdir -p /tmp/vx-demo-{id}/src
trap 'rm -rf /tmp/vx-demo-{id}' EXIT
cd /tmp/vx-demo-{id}
cp "$here/demo.rs" src/main.rs
[ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock .
cat > Cargo.toml <<'TOML'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[lib]
name = "bitcoin_indexer"
path = "/repo/src/main.rs"
[dependencies]
sha2 = "0.9.2"
hyper = {{ version = "0.14.20", features = ["client", "http1", "tcp", "server"] }}
regex = {{version = "1.6.0", features = ["std", "perf"], default-features = false}}
tokio = {{ version = "1.20.1", features = ["rt-multi-thread", "net", "io-util", "sync"] }}
serde = {{ version = "1.0.142", features = ["derive"] }}
serde_json = "1.0.83"
[profile.dev]
debug = 0
TOML
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/vx-demo-{id}/target
cargo build --offline --quiet 2>build.log || {{ cat build.log; exit 2; }}
timeout 120 /tmp/vx-demo-{id}/target/debug/demo
""")
    os.chmod(d + "/demo.sh", 0o755)
