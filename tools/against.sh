#!/bin/bash
# bash tools/against.sh REPO_COPY OUT_DIR ID...
# Development aid: run checks against another copy of the library (a scratch
# worktree with a planted bug). The registered checks always use /repo.
set -u
home=$(cd "$(dirname "$0")/.." && pwd)
repo=$(cd "$1" && pwd); out=$2; shift 2
mkdir -p "$out/v"
for d in harness shim py wasm fuzz; do [ -d "$home/$d" ] && { rm -rf "${out:?}/v/$d"; cp -a "$home/$d" "$out/v/"; }; done
cp "$home/run.sh" "$out/v/"
cp "$home"/known-findings* "$out/v/" 2>/dev/null
grep -rlE '"?/repo' "$out/v" --include=Cargo.toml --include=run.sh --include=*.rs --include=*.py 2>/dev/null | xargs -r sed -i "s#/repo\\b#$repo#g"
for id in "$@"; do bash "$out/v/run.sh" "$id" 2>&1 | cut -c1-${WIDTH:-300}; done
