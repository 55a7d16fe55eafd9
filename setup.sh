#!/bin/bash
# Builds the analyser from the committed sources, offline.
cd "$(dirname "$0")/analyzer" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin && go vet ./... && go build -o bin/houndverif .
