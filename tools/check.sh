#!/bin/bash
# tools/check.sh PROP [extra symgo flags]: decide one property on /repo's current tree.
d=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
if [ ! -x "$d/bin/symgo" ]; then
  bash "$d/tools/build_engine.sh" || exit 2
fi
p=$1; shift
exec "$d/bin/symgo" -prop "$p" -verif "$d" -repo /repo "$@"
