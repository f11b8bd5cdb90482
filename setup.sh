#!/bin/bash
# Builds the verifier from the committed files (offline).
set -e
cd "$(dirname "$0")/govc"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go build -o govc .
cd ..
mkdir -p evidence
# warm the build cache for the packages under verification
( cd "${VERIF_REPO:-/repo}" && go build ./... ) || true
