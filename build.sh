#!/bin/bash
# builds the verifier (govc) from /verif/govc; offline
set -e
cd "$(dirname "$0")/govc"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
go build -o ../bin/govc .
