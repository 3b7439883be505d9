#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]
# Builds the harness inside the module of /repo's working tree (through a build overlay, /repo is
# not written) and runs the exploration that decides PROPERTY.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$HERE"
PROP="$1"
[ $# -ge 2 ] && export VERIF_TIER="$2"
export REPO="${REPO:-/repo}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
WORK="$(mktemp -d /tmp/vh.XXXXXX)" || exit 2
trap '/bin/rm -rf "$WORK"' EXIT
export VERIF_WORK="$WORK"
python3 "$HERE/tools/build.py" "$PROP" "$WORK" >"$WORK/build.log" 2>&1 || { cat "$WORK/build.log" >&2; echo "build failed" >&2; exit 2; }
"$WORK/vh" "$PROP"
rc=$?
exit $rc
