#!/bin/bash
# Compiles main.rs against the contract as built in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
T="$PWD/target/debug"
ok=0
for c in "$T"/deps/libcosmwasm_std-*.rlib; do
  [ -f "$c" ] || continue
  if rustc --edition 2021 -A warnings -L dependency="$T/deps" --extern cosmwasm_std="$c" \
      --extern sumtree_orderbook="$T/libsumtree_orderbook.rlib" "$here/main.rs" -o "$work/demo" 2> "$work/log"; then ok=1; break; fi
done
if [ $ok = 0 ]; then
  cat "$work/log"
  mkdir -p "$work/c/src" && cp "$here/main.rs" "$here/kit.rs" "$work/c/src/" && cp "$PWD/Cargo.lock" "$work/c/"
  printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nsumtree-orderbook = { path = "%s" }\ncosmwasm-std = "1.5.4"\n' \
    "$PWD/contracts/sumtree-orderbook" > "$work/c/Cargo.toml"
  (cd "$work/c" && CARGO_TARGET_DIR="$work/t" cargo build --offline 2>&1 | tail -3) && cp "$work/t/debug/demo" "$work/demo" || exit 3
fi
timeout 100 "$work/demo"
