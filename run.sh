#!/bin/bash
# run.sh setup | check Cxx | replay Cxx CASE-ID
# Builds dld from /repo's working tree and the model checker, outside /repo, then runs one check.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${DLD_REPO:-/repo}"
T="$V/target"
mkdir -p "$T" "$V/evidence"
export CARGO_NET_OFFLINE=true
unset LD_PRELOAD DLDMC_SERVER RUSTFLAGS CARGO_TARGET_DIR
build() {
  exec 9>"$T/.lock"
  flock 9
  # what was built is judged by the sources' contents: times can go backwards between copies of a tree
  STAMP="$( (echo "$REPO"; rustc -V; cd "$REPO" && find src Cargo.toml Cargo.lock build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum) | sha256sum)"
  if [ "$STAMP" != "$(cat "$T/dld.stamp" 2>/dev/null)" ]; then
    rm -f "$T/dld.stamp"
    cargo clean --quiet --offline --locked --manifest-path "$REPO/Cargo.toml" -p dld --target-dir "$T/dld" >/dev/null 2>&1
  fi
  if ! CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 cargo build --quiet --offline --locked --manifest-path "$REPO/Cargo.toml" --bin dld --target-dir "$T/dld" >"$T/dld.log" 2>&1; then
    cat "$T/dld.log" >&2
    echo "run.sh: dld does not build" >&2
    exit 4
  fi
  echo "$STAMP" >"$T/dld.stamp"
  if ! cargo build --quiet --offline --release --manifest-path "$V/mc/Cargo.toml" --target-dir "$T/mc" >"$T/mc.log" 2>&1; then
    cat "$T/mc.log" >&2
    echo "run.sh: the model checker does not build" >&2
    exit 4
  fi
  if [ ! -e "$T/shim.so" ] || [ "$V/shim/shim.c" -nt "$T/shim.so" ]; then
    gcc -O2 -Wall -Wextra -shared -fPIC -o "$T/shim.so.new" "$V/shim/shim.c" -ldl && mv "$T/shim.so.new" "$T/shim.so" || exit 4
  fi
  # a run uses its own copy, so that a later build does not change it under its feet
  BIN="$(mktemp -d "$T/bin.XXXXXX")" || exit 4
  cp "$T/dld/debug/dld" "$T/mc/release/mc" "$T/shim.so" "$BIN/" || exit 4
  flock -u 9
  exec 9>&-
}
case "${1:-}" in
setup)
  build
  rm -rf "${BIN:?}"
  ;;
check | replay)
  build
  trap 'rm -rf "${BIN:?}"' EXIT
  "$BIN/mc" "$1" "${2:?property}" "$BIN/dld" "$BIN/shim.so" "$V" "${3:-}"
  exit $?
  ;;
*)
  echo "usage: run.sh setup | check Cxx | replay Cxx CASE-ID" >&2
  exit 2
  ;;
esac
