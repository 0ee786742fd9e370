#!/bin/bash
# usage: build.sh DIR - builds the explorer (DIR/mc) and the repository's tools (DIR/bin) from /repo.
. "$(dirname "$0")/env.sh"
set -e
out=$1
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out/bin"
(cd "$here/mc" && go build -o "$out/mc" .) &
p1=$!
(cd /repo/cli && go build -o "$out/bin/" ./msgocat ./msgofmt ./msgomerge ./msgounfmt ./xgotext ./gotext-tools) &
p2=$!
wait $p1
wait $p2
