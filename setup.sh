#!/bin/bash
# Checks build everything themselves; this fills the build caches.
cd "$(dirname "$0")" || exit 1
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
w=$(mktemp -d) || exit 1
trap 'rm -rf "$w"' EXIT
(cd harness && go build -o "$w/harness" .) && (cd /repo && go build -o "$w/blang" .)
