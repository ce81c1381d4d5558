#!/bin/bash
# builds the verifier from the committed sources (offline)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$here/bin" "$here/evidence"
cd "$here/tools/gvc"
go build -o "$here/bin/gvc" .
# warm the build cache for the verified program's dependencies and its test binaries
cd "${VERIF_REPO:-/repo}/src" && go build ./... && go vet ./util >/dev/null 2>&1 || true
