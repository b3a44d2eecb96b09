#!/bin/bash
# Builds the analyzer from the committed, vendored sources.
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p bin evidence
cd analyzer && GOFLAGS=-mod=vendor go build -o ../bin/vxverif .
