#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks" < main.rs ; takes the patch from the uncommitted change in /tmp/seed-repo
set -e
d=/verif/seeded/$1; mkdir -p "$d"
git -C /tmp/seed-repo diff > "$d/patch.diff"; [ -s "$d/patch.diff" ] || { echo "no change in /tmp/seed-repo"; exit 1; }
git -C /tmp/seed-repo checkout -q -f -- .
cat > "$d/main.rs"
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
d,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1)
P
cat > "$d/demo.sh" <<P
#!/bin/bash
# Builds the small program beside this script against the hydra crates of the current directory and runs it.
here="\$(cd "\$(dirname "\$0")" && pwd)"; repo="\$PWD"
rm -rf /tmp/hydra-demo-$1; mkdir -p /tmp/hydra-demo-$1/src
cp "\$here/main.rs" /tmp/hydra-demo-$1/src/main.rs
[ -f "\$repo/Cargo.lock" ] && cp "\$repo/Cargo.lock" /tmp/hydra-demo-$1/Cargo.lock
cat > /tmp/hydra-demo-$1/Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
hydra = { path = "\$repo/hydra" }
hydra-websockets = { path = "\$repo/hydra-websockets" }
tokio = { version = "1", features = ["rt", "rt-multi-thread", "net", "sync", "time", "macros", "signal", "io-util"] }
serde = { version = "1", features = ["derive"] }
rmp-serde = "1.3"
bincode = { version = "2.0", features = ["serde"] }
futures-util = "0.3"
tokio-tungstenite = { version = "0.26", default-features = false, features = ["handshake"] }
sha2 = "0.10"
hmac = "0.12"
[workspace]
T
cd /tmp/hydra-demo-$1 && CARGO_TARGET_DIR=/tmp/hydra-demo-$1/target RUSTUP_TOOLCHAIN=stable RUSTFLAGS="--cap-lints=allow" cargo build --offline -q; rc=\$?
if [ \$rc = 0 ]; then timeout 60 /tmp/hydra-demo-$1/target/debug/demo; rc=\$?; fi
cd /; rm -rf /tmp/hydra-demo-$1
exit \$rc
P
echo "made $d"
