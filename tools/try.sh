#!/bin/bash
# tools/try.sh PATCH|-COMMIT ID...   applies a patch to /repo (or undoes a commit of it), runs the given
# checks, and restores /repo.  For development only; no check uses it.
p="$1"; shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
if [ "${p#-}" != "$p" ]; then git show "${p#-}" -- src | git apply -R || { git checkout -q -- .; exit 2; }
else git apply "$p" || exit 2; fi
for id in "$@"; do
  ( cd /verif && timeout 900 ./check.sh "$id" 2>&1 | tail -${LINES_OUT:-4} | cut -c1-600; echo "   $id exit ${PIPESTATUS[0]}" )
done
git checkout -q -- .
