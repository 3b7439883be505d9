#!/bin/bash
# Warms the build cache: builds the harness once.
set -u
HERE="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W="$(mktemp -d /tmp/vhsetup.XXXXXX)" || exit 1
python3 "$HERE/tools/build.py" C01 "$W"; rc=$?
/bin/rm -rf "$W"
exit $rc
