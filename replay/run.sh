#!/bin/bash
# run.sh PROPERTY: searches for a failing input of the property on the real
# code (the test is compiled into the package through an overlay).
cd "$(dirname "$0")/.."
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -x govc/govc ] || ./setup.sh >/dev/null || exit 2
exec ./govc/govc replay "$1"
