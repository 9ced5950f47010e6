#!/bin/bash
# Builds the seam, the simulator and the command line tool from /repo's current working tree.
# Output goes to /verif/target (git-ignored).  Nothing in /repo is touched.
#   build.sh [plain|fine|all]   fine: the simulator with the library instrumented at every basic block
what=${1:-all}
set -e
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset LD_PRELOAD RUSTFLAGS
here=$(cd "$(dirname "$0")" && pwd)
T=$(dirname "$here")/target
export CARGO_TARGET_DIR=$T
mkdir -p "$T"
exec 9>"$T/.lock"
flock 9
h=$(cd /repo && find visqol-rs/src visqol/src visqol-rs/Cargo.toml visqol/Cargo.toml Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
gcc -O2 -shared -fPIC -fno-builtin -fno-delete-null-pointer-checks -w -o "$T/libsimio.so.$$" "$here/vsim/simio.c" -ldl -lpthread
cmp -s "$T/libsimio.so.$$" "$T/libsimio.so" && rm -f "$T/libsimio.so.$$" || mv "$T/libsimio.so.$$" "$T/libsimio.so"
plain() {
  if [ "$(cat "$T/.srchash" 2>/dev/null)" != "$h" ]; then
    rm -f "$T/.srchash"
    # cargo goes by modification times; the content decides here
    cargo clean --offline --release --manifest-path "$here/vsim/Cargo.toml" -p visqol-rs -p vq >/dev/null 2>&1 || true
    cargo clean --offline --release --manifest-path "$here/cli/Cargo.toml" -p visqol -p visqol-rs >/dev/null 2>&1 || true
  fi
  cargo build --offline --release -q --manifest-path "$here/vsim/Cargo.toml"
  cargo build --offline --release -q --manifest-path "$here/cli/Cargo.toml"
  echo "$h" > "$T/.srchash"
}
fine() {
  h=$h$(sha256sum < "$here/fine-rustc.sh")
  export CARGO_TARGET_DIR=$T/fine RUSTC_WRAPPER=$here/fine-rustc.sh
  mkdir -p "$CARGO_TARGET_DIR"
  if [ "$(cat "$T/.finehash" 2>/dev/null)" != "$h" ]; then
    rm -f "$T/.finehash"
    cargo clean --offline --release --manifest-path "$here/vsim/Cargo.toml" -p visqol-rs -p vq >/dev/null 2>&1 || true
  fi
  cargo build --offline --release -q --manifest-path "$here/vsim/Cargo.toml"
  echo "$h" > "$T/.finehash"
}
case $what in
plain) (plain) ;;
fine) (fine) ;;
*) (plain); (fine) ;;
esac
