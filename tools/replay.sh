#!/bin/bash
# replay.sh PROPERTY SEED CASE: re-runs one generated case against /repo
here="$(cd "$(dirname "$0")/.." && pwd)"
. /opt/vp/env.sh
w="$(mktemp -d /tmp/verifreplay.XXXXXX)"; trap 'rm -rf "$w"' EXIT
(cd "$here/replay" && go build -o "$w/replay" .) && "$w/replay" -prop "$1" -seed "$2" -case "$3" -tmp "$w"
