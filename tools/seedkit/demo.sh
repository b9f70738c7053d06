#!/bin/bash
# Builds demo.rs against the library built from the working tree and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
. /opt/vp/env.sh
(cd "$repo" && cargo build --offline --lib) > "$tmp/err" 2>&1 || { tail -20 "$tmp/err"; exit 2; }
built=
for log in "$repo"/target/debug/deps/liblog-*.rlib; do # several builds of the log crate may lie there: one of them fits
  rustc --error-format short --edition 2021 -A warnings -o "$tmp/demo" "$here/demo.rs" --extern starry="$repo/target/debug/libstarry.rlib" \
    --extern log="$log" -L dependency="$repo/target/debug/deps" 2> "$tmp/err" && { built=1; break; }
done
[ -n "$built" ] || { cat "$tmp/err"; exit 2; }
mkdir "$tmp/cwd" && cd "$tmp/cwd" || exit 2
timeout 200 "$tmp/demo" > "$tmp/out" 2>&1
rc=$?
grep -v '^http server url watch' "$tmp/out" | tail -15
exit $rc
