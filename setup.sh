#!/bin/bash
# Warm the Go build cache; every check builds what it needs by itself anyway.
cd "$(dirname "$0")" && . ./env.sh && bash build.sh "$(mktemp -d)" >/dev/null 2>&1
exit 0
