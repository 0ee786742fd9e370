#!/bin/bash
# usage: check.sh PROPERTY quick|thorough   (or: check.sh PROPERTY replay FILE)
# Builds the explorer and the tools from /repo's working tree, then runs one check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
tmp=$(mktemp -d /tmp/mccheck.XXXXXX) || exit 2
trap 'chmod -R u+rwX "$tmp" 2>/dev/null; rm -rf "${tmp:?}"' EXIT
bash build.sh "$tmp" || { echo "build failed" >&2; exit 2; }
export MC_ROOT="$PWD" MC_BIN="$tmp/bin" MC_SCRATCH="$tmp"
"$tmp/mc" "$@" 2>"$tmp/stderr"
rc=$?
cat "$tmp/stderr" >&2
# A fatal error of the Go runtime inside the code under test (unbounded recursion,
# concurrent map writes) cannot be recovered from within the explorer.
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && grep -qE '^(fatal error: (stack overflow|concurrent map|all goroutines)|runtime: goroutine stack exceeds)' "$tmp/stderr"; then
  mkdir -p out && head -c 20000 "$tmp/stderr" > "out/$1-fatal.txt"
  echo "VIOLATION property=$1 replay=out/$1-fatal.txt"
  exit 1
fi
exit $rc
