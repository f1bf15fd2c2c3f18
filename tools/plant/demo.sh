#!/bin/bash
# exit 0: the property holds here; anything else: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 99
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$here/kit.rs" "$work/src/kit.rs"
cp "$repo/Cargo.lock" "$work/" 2>/dev/null
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
pkstl = { path = "$repo", features = ["bin", "cbor", "json"] }
ring = "0.16.9"
chacha20-poly1305-aead = "0.1.2"
flate2 = "1.0.11"
serde = { version = "1.0", features = ["derive"] }
[profile.dev]
opt-level = 1
T
export PATH="$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${DEMO_TARGET_DIR:-$work/target}
cd "$work" || exit 99
cargo build --offline -q >"$work/build.log" 2>&1 || { tail -20 "$work/build.log" >&2; exit 98; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
