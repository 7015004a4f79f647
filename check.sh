#!/bin/bash
# check.sh PROPERTY: builds the verifier and the replay driver from /verif and
# /repo's working tree, decides the property, rewrites evidence/PROPERTY.json.
# exit 0: held; exit 1 with a VIOLATION line: broken.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"
. /opt/vp/env.sh
unset GOOS GOARCH
work="$(mktemp -d /tmp/verifwork.XXXXXX)"
trap 'rm -rf "$work"' EXIT
export TMPDIR="$work"
tier="${VERIF_TIER:-quick}"
[ -n "$2" ] && tier="$2"
if ! (cd "$here/gowp" && go build -o "$work/gowp" .) 2>"$work/gowp.err"; then
  echo "cannot build the verifier:"; cat "$work/gowp.err"; exit 2
fi
args=()
# the module files are copied so that building never touches /repo or /verif
cp "$here/replay/go.mod" "$work/replay.mod"; cp "$here/replay/go.sum" "$work/replay.sum"
if (cd "$here/replay" && go build -modfile "$work/replay.mod" -o "$work/replay" .) 2>"$work/replay.err"; then
  args+=(-driver "$work/replay")
  if [ "$tier" = thorough ] && (cd "$here/replay" && go build -race -modfile "$work/replay.mod" -o "$work/replay-race" .) 2>/dev/null; then
    args+=(-driver-race "$work/replay-race")
  fi
else
  args+=(-driver-err "$(head -c 2000 "$work/replay.err")")
fi
"$work/gowp" check -repo /repo -specs "$here/contracts" -verif "$here" -prop "$prop" -tier "$tier" -work "$work" -levels "$here/levels.json" "${args[@]}"
rc=$?
exit $rc
