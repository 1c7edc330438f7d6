#!/bin/bash
# compiles the two programs beside this script against the crates in the current directory's repository:
# main.rs must be accepted, bad.rs (a misuse without unsafe code) must be refused
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f "$repo/crates/numeric/Cargo.toml" ] || repo=/repo
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
d="$(mktemp -d /tmp/numdemo.XXXXXX)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "numdemo"
version = "0.0.0"
edition = "2021"
[dependencies]
numeric-traits = { path = "$repo/crates/traits", features = ["std"] }
numeric-bits = { path = "$repo/crates/bits" }
numeric-ints = { path = "$repo/crates/ints" }
numeric-utils = { path = "$repo/crates/utils" }
numeric-static-iter = { path = "$repo/crates/static-iter" }
numeric-compounds = { path = "$repo/crates/compounds" }
numeric-reals = { path = "$repo/crates/reals", features = ["std"] }
[workspace]
TOML
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d"
export CARGO_TARGET_DIR="$d/target"
timeout 200 cargo check --offline -q || { echo "the proper program does not compile"; exit 2; }
cp "$here/bad.rs" "$d/src/main.rs"
if timeout 80 cargo check --offline -q >"$d/log" 2>&1; then
    echo "the misuse is accepted by the compiler"
    exit 1
fi
exit 0
