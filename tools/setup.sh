#!/bin/bash
# Warms the Go build cache. Checks do not depend on it, each builds the harness itself.
set -e
cd "$(dirname "$0")/../harness"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/h" .
go build -race -o "$tmp/hr" .
