#!/bin/bash
# Run with cwd = the repository. Builds small programs against its crates in a
# scratch directory: gen.rs (if there) generates parser code, main.rs checks.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
d=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
export CARGO_TARGET_DIR="$d/target" RUSTFLAGS="" 
crate() { # name source
  mkdir -p "$d/$1/src"
  cp "$here"/*.rs "$d/$1/src/"
  cp "$here/Cargo.lock" "$d/$1/Cargo.lock"
  sed -i "s/^name = \"hgen\"/name = \"demo\"/" "$d/$1/Cargo.lock"
  cat > "$d/$1/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
autobins = false
[[bin]]
name = "demo-$1"
path = "src/$2"
[workspace]
[dependencies]
lexan = { path = "$repo/lexan" }
lalr1 = { path = "$repo/lalr1" }
alalr1 = { path = "$repo/alalr1" }
lalr1_lib = { path = "$repo/lalr1_lib" }
alalr1_lib = { path = "$repo/alalr1_lib" }
lazy_static = "1"
[profile.dev]
debug = false
T
  [ -f "$d/generated.rs" ] && cp "$d/generated.rs" "$d/$1/src/generated.rs"
  (cd "$d/$1" && cargo build --offline --quiet 2>"$d/log") || { cat "$d/log"; return 1; }
  (cd "$d" && timeout 60 "$d/target/debug/demo-$1")
}
if [ -f "$here/gen.rs" ]; then crate gen gen.rs || exit 1; fi
if [ -f "$here/main.rs" ]; then crate main main.rs || exit 1; fi
exit 0
