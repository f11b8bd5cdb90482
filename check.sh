#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's current source.
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -x govc/govc ] || ./setup.sh >/dev/null || exit 2
exec ./govc/govc check "$1"
