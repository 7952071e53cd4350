#!/bin/bash
# bash run.sh ID | --replay FILE | --list | --setup
# Builds the harness against /repo's working tree and runs one check.
set -u
home=$(cd "$(dirname "$0")" && pwd)
export T2D_VERIF_HOME="$home" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
export CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_BUILD_TARGET MIRIFLAGS MIRI_SYSROOT
id=${1:-}
replay=
if [ "$id" = --replay ]; then
  replay=${2:?replay file}
  id=$(grep -o '"property": *"[A-Z0-9]*"' "$replay" | head -1 | grep -o '[A-Z][0-9]*')
fi
log=$(mktemp)
trap 'rm -f "$log" "$log".*' EXIT
failed() { # message: an error of the check, not a verdict
  cat "$log" >&2
  echo "$1" >&2
  exit 2
}
built() { # message, directory, cargo arguments
  local msg=$1 dir=$2; shift 2
  (cd "$home/$dir" && cargo build --offline --locked "$@") >"$log" 2>&1 || failed "$msg"
}
# The library builds for this host (the harness is made of it) but not in the
# configuration the property is about: that is a violation, not an error.
unbuildable() { # configuration, log
  grep -q 'could not compile `texture2ddecoder`' "$2" || { cp "$2" "$log"; failed "$1: the check does not build"; }
  local r="$home/replays/$id-build.json"
  mkdir -p "$home/replays" "$home/evidence"
  [ -n "$replay" ] && r=$replay
  [ -n "$replay" ] || printf '{"property": "%s", "relation": "build", "configuration": "%s",\n "message": "the library does not compile there", "rerun": "bash /verif/run.sh --replay <this file>"}\n' "$id" "$1" >"$r"
  printf '{"property": "%s", "tier": "%s", "seed": %s, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the library compiles in the configuration", "samples": ["%s"]}, "wall_s": 0, "violations": 1}\n' \
    "$id" "${VERIF_TIER:-quick}" "${VERIF_SEED:-1}" "$1" >"$home/evidence/$id.json"
  grep -m3 -A6 '^error' "$2" >&2
  echo "build: the library does not compile for $1"
  echo "VIOLATION property=$id replay=$r"
  exit 1
}
[ "$id" = --setup ] && exit 0
built "the harness does not build against /repo" harness --profile checked --target-dir "$home/target"
guided=
case $id in
  C17 | C18 | C19 | C20) ;;
  *) [ "${VERIF_TIER:-}" = thorough ] && [ -z "$replay" ] && guided=y ;;
esac
if [ -n "$guided" ]; then
  (cd "$home/fuzz" && cargo +nightly fuzz build --fuzz-dir . --target-dir "$home/target-fuzz" property) >"$log" 2>&1 ||
    failed "the fuzz target does not build"
fi
if [ -n "$guided" ] || [ "$id" = C14 ] || [ "$id" = C15 ] || { [ -n "$replay" ] && grep -q "address sanitiser" "$replay"; }; then
    # once more with the address sanitiser, which sees reads out of bounds
    RUSTFLAGS=-Zsanitizer=address RUSTUP_TOOLCHAIN=nightly built "the harness does not build with the address sanitiser" \
      harness --profile checked --target x86_64-unknown-linux-gnu --target-dir "$home/target-asan"
fi
case $id in
  C14 | C18)
    built "the library does not build unoptimised" shim --lib --features alloc --target-dir "$home/target-shim/dev" ;;
esac
case $id in
  C17)
    export PYO3_PYTHON=/opt/vp/venv/bin/python PYO3_USE_ABI3_FORWARD_COMPATIBILITY=1 PYTHONDONTWRITEBYTECODE=1
    [ -x "$PYO3_PYTHON" ] || PYO3_PYTHON=$(command -v python3)
    built "the Python module does not build" py/mod --profile checked --target-dir "$home/target-py" ;;
  C18)
    built "the library does not build for release" shim --lib --release --features alloc --target-dir "$home/target-shim/al" ;;
  C19)
    (cd "$home/shim" && cargo build --offline --locked --lib --release --target-dir "$home/target-shim/na") >"$log" 2>&1 ||
      unbuildable "the build without alloc" "$log"
    (cd "$home/wasm" && cargo +nightly build --offline --locked --no-default-features -Zjson-target-spec -Zbuild-std=core --release \
      --target t2d32.json --target-dir "$home/target-wasm-na") >"$log" 2>&1 || unbuildable "a host without an allocator" "$log" ;;
  C20)
    t=s390x-unknown-linux-gnu
    (
      export MIRI_SYSROOT="$home/target-miri/sysroot-$t" MIRIFLAGS=-Zmiri-disable-isolation
      cargo +nightly miri setup -q --target $t || exit 2
      cd "$home/shim" && cargo +nightly miri run -q --offline --locked --features alloc --bin t2d-port \
        --target $t --target-dir "$home/target-miri/$t" </dev/null || exit 1
    ) >"$log.be" 2>&1 || touch "$log.be.rc" &
    (cd "$home/wasm" && cargo +nightly build --offline --locked -Zjson-target-spec -Zbuild-std=core,alloc --release \
      --target t2d32.json --target-dir "$home/target-wasm") >"$log.32" 2>&1 || unbuildable "a 32-bit host" "$log.32"
    wait
    [ -e "$log.be.rc" ] && unbuildable "a big-endian host" "$log.be" ;;
esac
if [ -n "$replay" ]; then
  grep -q '"relation": *"build"' "$replay" && { echo "$id build: the recorded configuration compiles"; exit 0; }
  "$home/target/checked/check" --replay "$replay"
else
  "$home/target/checked/check" "$id"
fi
exit $?
