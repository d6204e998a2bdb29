#!/bin/bash
cd "$(dirname "$0")" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o ../bin/gov .
