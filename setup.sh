#!/bin/bash
# builds the verifier (offline)
cd "$(dirname "$0")/govc" || exit 2
mkdir -p ../bin
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off /opt/veriftools/go1.27.3/bin/go build -o ../bin/govc.tmp . && mv ../bin/govc.tmp ../bin/govc
