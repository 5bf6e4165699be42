#!/bin/bash
# Records the statements and literals of /repo's sources in harness/baseline.json (see cmd/instr).
cd "$(dirname "$0")/../harness" && D=$(mktemp -d /tmp/baseline.XXXXXX) &&
GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -tags=safe" go run ./cmd/instr -out "$D" -write "$PWD/baseline.json"
rm -rf "$D"
