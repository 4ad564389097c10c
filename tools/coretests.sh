#!/bin/bash
# the repository's own tests on the stand-ins, from a scratch copy of a repository tree
# usage: coretests.sh [REPO]
set -eu
R=${1:-/repo}
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/p4a-coretests-XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -r "$R/Cargo.lock" "$W/"
mkdir "$W/crates"
for c in analyzer-core analyzer-host analyzer-abstractions p4-analyzer lsif-p4 tester; do cp -r "$R/crates/$c" "$W/crates/"; done
cat > "$W/Cargo.toml" <<T
[workspace]
members = ["crates/analyzer-core", "crates/analyzer-host", "crates/analyzer-abstractions", "crates/p4-analyzer", "crates/lsif-p4", "crates/tester"]
[patch."https://github.com/salsa-rs/salsa"]
salsa-2022 = { path = "$V/standins/salsa" }
[patch.crates-io]
T
for c in glob ctrlc xflags async-thread tracing-appender lsp-types; do echo "$c = { path = \"$V/standins/$c\" }" >> "$W/Cargo.toml"; done
sed -i '/^\[\[bench\]\]/,/^$/d;/criterion/d' "$W"/crates/*/Cargo.toml
rm -rf "$W/crates/analyzer-core/benches"
export HOME=/root RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$V/build/target-coretests RUST_BACKTRACE=0
cd "$W"
cargo test --offline --no-fail-fast 2>&1 | grep -E "^(test |test result|error|warning: unused|thread|failures)|panicked|assert" | grep -v "ok$" || true
