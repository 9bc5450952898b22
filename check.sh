#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]. Builds the engine if needed and checks one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME="${HOME:-/root}" PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
tier="${2:-${VERIF_TIER:-quick}}"
mkdir -p "$V/.bin"
(cd engine && go build -o "$V/.bin/engine" .) || { echo "the engine does not build" >&2; exit 2; }
[ "$1" = setup ] && exit 0
[ "$1" = replay ] && exec "$V/.bin/engine" -replay "$2" -verif "$V" -repo /repo
exec "$V/.bin/engine" -prop "$1" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$V" -repo /repo
