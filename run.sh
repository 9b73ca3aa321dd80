#!/bin/bash
# Builds the simulator, the shim and c8s (debug and release, from the code's current
# working tree) and runs one simulator command, e.g.  run.sh check C01 quick
set -u
HOME_DIR="$(cd "$(dirname "$0")" && pwd)"
REPO="${C8S_REPO:-/repo}"
B="$HOME_DIR/build"
mkdir -p "$B"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
exec 9>"$B/.lock"
flock 9

die() { echo "run.sh: $1" >&2; [ -f "$2" ] && tail -40 "$2" >&2; exit 2; }

# The simulator and the shim.
cargo build --release --offline --locked --manifest-path "$HOME_DIR/sim/Cargo.toml" --target-dir "$B/sim" >"$B/sim.log" 2>&1 \
  || die "the simulator does not build" "$B/sim.log"
if [ ! -f "$B/libc8shim.so" ] || [ "$HOME_DIR/shim/shim.c" -nt "$B/libc8shim.so" ] || [ "$HOME_DIR/shim/shim.h" -nt "$B/libc8shim.so" ]; then
  gcc -O2 -g -fPIC -shared -U_FORTIFY_SOURCE -fno-delete-null-pointer-checks -o "$B/libc8shim.so.new" "$HOME_DIR/shim/shim.c" -ldl >"$B/shim.log" 2>&1 \
    && mv "$B/libc8shim.so.new" "$B/libc8shim.so" || die "the shim does not build" "$B/shim.log"
fi

# The code under test. Cargo looks at time stamps; we look at content as well.
sum="$(cd "$REPO" && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$(cat "$B/c8s.sum" 2>/dev/null)" != "$sum" ]; then
  rm -f "$B/c8s.sum"
  cargo clean --offline -p c8s --manifest-path "$REPO/Cargo.toml" --target-dir "$B/c8s" >/dev/null 2>&1
  cargo clean --offline --release -p c8s --manifest-path "$REPO/Cargo.toml" --target-dir "$B/c8s" >/dev/null 2>&1
fi
LOCKED=""; [ -f "$REPO/Cargo.lock" ] && LOCKED="--locked"
cargo build --offline $LOCKED --manifest-path "$REPO/Cargo.toml" --target-dir "$B/c8s" >"$B/c8s-debug.log" 2>&1 &
d=$!
wait $d || die "c8s does not build (debug)" "$B/c8s-debug.log"
cargo build --release --offline $LOCKED --manifest-path "$REPO/Cargo.toml" --target-dir "$B/c8s" >"$B/c8s-release.log" 2>&1 \
  || die "c8s does not build (release)" "$B/c8s-release.log"
echo "$sum" >"$B/c8s.sum"

# The run uses its own copies, so that a build started meanwhile cannot disturb it.
BIN="$B/run.$$"
mkdir -p "$BIN"
cp "$B/c8s/debug/c8s" "$BIN/c8s-debug" && cp "$B/c8s/release/c8s" "$BIN/c8s-release" && cp "$B/libc8shim.so" "$B/sim/release/c8sim" "$BIN/" \
  || die "cannot copy the binaries" /dev/null
flock -u 9
trap 'rm -rf "$BIN"' EXIT
[ "${1:-}" = build ] && exit 0
C8SIM_HOME="$HOME_DIR" C8SIM_REPO="$REPO" C8SIM_DEBUG_BIN="$BIN/c8s-debug" C8SIM_RELEASE_BIN="$BIN/c8s-release" C8SIM_SHIM="$BIN/libc8shim.so" "$BIN/c8sim" "$@"
