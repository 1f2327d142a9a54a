#!/bin/bash
# ./check.sh PROP: decide one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
export GOVER_VERIF="$PWD"
mkdir -p evidence
bin=$(mktemp -d /tmp/goverbin.XXXXXX) || exit 2
trap '/bin/rm -rf "$bin"' EXIT
(cd gover && go build -o "$bin/gover" .) || exit 2
"$bin/gover" check "$1"
