#!/bin/bash
# Builds the symbolic engine from the committed sources (offline).
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p bin evidence
new=$(find engine -name '*.go' -newer bin/engine 2>/dev/null | head -1)
if [ ! -x bin/engine ] || [ -n "$new" ]; then
  (cd engine && go build -o ../bin/engine.tmp.$$ .) && mv bin/engine.tmp.$$ bin/engine
fi
