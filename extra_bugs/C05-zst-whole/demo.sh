#!/bin/bash
# cwd: the repository, built. Exit 0: the property holds in this case; nonzero: it does not.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'cd / && find "$w" -delete' EXIT
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0 PATH=$PATH:/root/.cargo/bin:/usr/local/cargo/bin
unset CHOPPER_TZ
mkdir -p "$w/crate/src" "$w/d"
cp "$repo/Cargo.lock" "$w/crate/"
cat > "$w/crate/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
chopper = { path = "$repo" }
chrono = "0.4"
chrono-tz = "0.5"
[profile.dev]
debug = 0
[workspace]
[[bin]]
name = "chop"
path = "$repo/chop/src/main.rs"
EOF

cargo build --offline --quiet --manifest-path "$w/crate/Cargo.toml" --target-dir "$w/t" 2>"$w/log" || { cat "$w/log" >&2; exit 3; }
CHOP=$w/t/debug/chop; DEMO=$w/t/debug/demo
cd "$w/d"
# the demonstration runs here, in a scratch directory
 python3 - <<'P'
h=b'time,a\n1500000000000000000,x\n'
f=b'\x28\xb5\x2f\xfd\x00\x40'+(len(h)<<3).to_bytes(3,'little')+h
f+=((100000<<3)|2).to_bytes(3,'little')+b'\n'
f+=(((100000<<3)|2).to_bytes(3,'little')+b'\n')*3000+(1).to_bytes(3,'little')
open('a.csv.zst','wb').write(f)
P
 python3 - "$CHOP" <<'P' || exit 1
import resource,subprocess,sys
p=subprocess.run([sys.argv[1],'-E','a.csv.zst'],stdout=subprocess.PIPE)
kb=resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
print(kb,'KB',file=sys.stderr)
sys.exit(0 if p.returncode==0 and p.stdout.count(b'\n')==2 and kb<120000 else 1)
P
