#!/bin/bash
# check.sh PROPERTY TIER: decides one property on /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
cd "$here" || exit 2
repo="${STOMP_REPO:-/repo}"
export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
bin="$(mktemp -d)"
trap 'rm -rf "$bin"' EXIT
(cd analyzer && go build -o "$bin/an" .) || { echo "cannot build the analyzer"; exit 2; }
unset GOFLAGS
"$bin/an" check "$repo" "$here" "$1" "${2:-quick}"
