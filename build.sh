#!/bin/bash
# Builds the engine (offline) into /verif/bin.
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
cd "$(dirname "$0")/engine" && go build -o ../bin/gosym .
