#!/bin/bash
# Builds the checker from the committed files; offline (dependencies vendored).
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p bin evidence
cd engine
GOFLAGS=-mod=vendor CGO_ENABLED=0 go build -o ../bin/gosym .
# warm the build cache for native replays
(cd /repo && CGO_ENABLED=0 go build ./... ) || true
