#!/bin/bash
# Builds the wasm module (32-bit, no "std" feature) from /repo's working tree:
# first the standard library for the target, from rust-src, then the module.
# Exit 3 when the code under test does not build for the platform.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
out="$(dirname "$here")/target/wasm"
export CARGO_NET_OFFLINE=true
T=wasm32-unknown-unknown
root="$(rustc +stable --print sysroot)" || exit 2
LIB="$root/lib/rustlib/src/rust/library"
sys="$out/sysroot/lib/rustlib/$T/lib"
mkdir -p "$out"
stamp="$(rustc +stable -vV | tr '\n' ' ')"
if [ "$(cat "$out/sysroot.stamp" 2>/dev/null)" != "$stamp" ]; then
  s="$out/std"
  mkdir -p "$s/src" "$s/.cargo" "$sys"
  cp "$LIB/Cargo.lock" "$s/Cargo.lock"
  printf '#![feature(no_core)]\n#![no_core]\n' >"$s/src/lib.rs"
  cat >"$s/Cargo.toml" <<X
[workspace]
[package]
name = "custom-local-sysroot"
version = "0.0.0"
edition = "2021"
[lib]
path = "src/lib.rs"
[dependencies.std]
path = "$LIB/std"
[patch.crates-io.rustc-std-workspace-core]
path = "$LIB/rustc-std-workspace-core"
[patch.crates-io.rustc-std-workspace-alloc]
path = "$LIB/rustc-std-workspace-alloc"
[patch.crates-io.rustc-std-workspace-std]
path = "$LIB/rustc-std-workspace-std"
[patch.crates-io.windows-sys]
path = "$LIB/windows-sys"
[patch.crates-io.windows-link]
path = "$LIB/windows_link"
[profile.release]
panic = "abort"
X
  cat >"$s/.cargo/config.toml" <<X
[source.crates-io]
replace-with = "v"
[source.v]
directory = "$LIB/vendor"
X
  if ! (cd "$s" && CARGO_TARGET_DIR="$s/target" RUSTC_BOOTSTRAP=1 __CARGO_DEFAULT_LIB_METADATA=vf \
    RUSTFLAGS="-Zforce-unstable-if-unmarked" \
    cargo +stable build --release --offline --target $T) >"$out/std.log" 2>&1; then
    tail -20 "$out/std.log" >&2
    exit 2
  fi
  find "$s/target/$T" \( -name '*.rlib' -o -name '*.rmeta' \) ! -name 'libcustom*' -exec cp {} "$sys/" \;
  echo "$stamp" >"$out/sysroot.stamp"
fi
# never trust timestamps for the code under test
find "$out/target/$T/release/.fingerprint" -maxdepth 1 -name 'substrate_parser-*' -exec rm -r {} + 2>/dev/null
if ! CARGO_TARGET_DIR="$out/target" CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUSTFLAGS="--sysroot $out/sysroot -C link-arg=-zstack-size=67108864" \
  cargo +stable build --offline --release --target $T --manifest-path "$here/Cargo.toml" >"$out/build.log" 2>&1; then
  tail -40 "$out/build.log" >&2
  grep -q 'could not compile `substrate_parser`' "$out/build.log" && exit 3
  exit 2
fi
cp "$out/target/$T/release/pbt_wasm.wasm" "$out/pbt_wasm.wasm"
