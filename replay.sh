#!/bin/bash
# replay.sh FILE: run the failing history of a replay file against /repo.
set -e
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1")
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d /tmp/verif-replay-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"/repo/zz_verif_test.go":"%s/harness/verif_test.go"}}' "$here" > "$tmp/o.json"
cd /repo
VERIF_PROP=replay VERIF_REPLAY="$file" go test -vet=off -count=1 -overlay "$tmp/o.json" -run '^TestVerifSearch$' -v .
