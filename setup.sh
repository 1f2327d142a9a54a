#!/bin/bash
# nothing is installed: the verifier is built by every check; this only shows that it builds
cd "$(dirname "$0")/gover" || exit 1
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
mkdir -p ../evidence
go build -o /dev/null . && z3-new --version && z3 --version && cvc5 --version | head -1
