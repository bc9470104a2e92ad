#!/bin/bash
# Nothing is installed: check that the tools are there and warm the Go build cache.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
verus --version > /dev/null
cd "$here/g2v"
tmp=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/g2v" .
cd /repo && go build ./... && go vet . > /dev/null 2>&1 || true
