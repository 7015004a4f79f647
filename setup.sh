#!/bin/bash
# warms the Go build cache; every check builds what it needs itself
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
(cd "$here/gowp" && go build -o "$w/gowp" .)
