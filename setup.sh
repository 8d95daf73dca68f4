#!/bin/bash
# builds /verif/bin/govc from the committed sources, offline.
cd "$(dirname "$0")/govc" || exit 2
if [ -x ../bin/govc ] && [ -z "$(find . -name '*.go' -newer ../bin/govc -o -name go.mod -newer ../bin/govc | head -1)" ]; then exit 0; fi
mkdir -p ../bin
GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GOTOOLCHAIN=local go build -buildvcs=false -o ../bin/govc .
