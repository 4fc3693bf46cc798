#!/bin/bash
# Builds the analyzer once, so that the checks find a warm build cache; each check builds it again.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
cd "$here/analyzer" || exit 1
GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go vet . >/dev/null 2>&1
GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o /dev/null .
