#!/bin/bash
# cwd: the repository, built. Exit 0: the property holds in this case; nonzero: it does not.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'cd / && find "$w" -delete' EXIT
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0 PATH=$PATH:/root/.cargo/bin:/usr/local/cargo/bin
unset CHOPPER_TZ
mkdir -p "$w/crate/src" "$w/d"
cp "$repo/Cargo.lock" "$w/crate/"
cat > "$w/crate/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
chopper = { path = "$repo" }
chrono = "0.4"
chrono-tz = "0.5"
[profile.dev]
debug = 0
[workspace]
[[bin]]
name = "chop"
path = "$repo/chop/src/main.rs"
EOF

cargo build --offline --quiet --manifest-path "$w/crate/Cargo.toml" --target-dir "$w/t" 2>"$w/log" || { cat "$w/log" >&2; exit 3; }
CHOP=$w/t/debug/chop; DEMO=$w/t/debug/demo
cd "$w/d"
# the demonstration runs here, in a scratch directory
h=time$(printf ',n%.0s' $(seq 1100)); v=1500000000000000000$(printf ',1%.0s' $(seq 1100))
{ echo "$h"; echo "$v"; } > a.csv
"$CHOP" -E --print-time no a.csv > out || exit 1
cmp out a.csv || exit 1
