#!/bin/bash
# Builds the checker (offline) into bin/verif.
set -e
cd "$(dirname "$0")/engine"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 HOME=/root
unset GOROOT
mkdir -p ../bin
/opt/veriftools/go1.27.3/bin/go build -o ../bin/verif .
