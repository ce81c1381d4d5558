#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property on /repo's current tree.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
[ -x "$here/bin/gvc" ] || "$here/setup.sh" >&2 || exit 2
exec "$here/bin/gvc" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${VERIF_REPO:-/repo}" -verif "$here"
