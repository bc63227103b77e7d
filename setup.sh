#!/bin/bash
# builds the verifier once and warms Go's build cache; every check rebuilds it from source again (cached)
cd "$(dirname "$0")/gvc" || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
go build -o "$t/gvc" . || exit 1
cd /repo && go build ./... || exit 1
z3 --version && cvc5 --version | head -1
