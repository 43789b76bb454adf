#!/bin/bash
# builds the SSA dumper (x/tools from the module cache) and warms the build cache
set -e
mkdir -p /verif/build /verif/evidence
cd /verif/ssadump
GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build /opt/veriftools/go1.26.10/bin/go build -o /verif/build/ssadump .
. /opt/vp/env.sh
/verif/build/ssadump /repo . /verif/build/ssa.json
