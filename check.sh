#!/bin/bash
# check.sh PROPERTY [LEVEL]: decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
V=$(pwd)
mkdir -p evidence out
W=$(mktemp -d /tmp/gvc-check-XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
if [ ! -x bin/gvc ] || [ -n "$(find gvc -name '*.go' -newer bin/gvc)" ]; then
  (cd gvc && go build -o "$W/gvc" .) || exit 2
else
  cp bin/gvc "$W/gvc"
fi
# the harness is built from /repo's current tree on every run
cp -r harness "$W/h"
(cd "$W/h" && go build -o "$W/harness" .) >"$W/hbuild.log" 2>&1 || { echo "note: the harness does not build against this tree"; head -5 "$W/hbuild.log"; }
"$W/gvc" check -prop "$1" -level "${2:-proof}" -harness "$W/harness" -repo /repo -verif "$V"
