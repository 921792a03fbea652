#!/bin/bash
# Warms the build cache: the monitors with the race detector, and routedns.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off \
  GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build CGO_ENABLED=1
cd "$(dirname "$0")/harness" || exit 1
go build -race ./... && go test -race -vet=off -run '^$' ./... >/dev/null || exit 1
go test -vet=off -run '^$' ./... >/dev/null
cd /repo && go build -o /dev/null ./cmd/routedns
