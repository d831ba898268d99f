#!/bin/bash
# builds the SSA exporter from the committed source
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
cd govc/ssaexport && go build -o ../../build/ssaexport . 
