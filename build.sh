#!/bin/bash
# Builds the checks and the alda client from /repo's working tree into
# /verif/.build/bin. Writes nothing in /repo. Arguments: plain, race, alda,
# alda-race (default: plain).
set -eo pipefail
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
V=$(cd "$(dirname "$0")" && pwd)
B="$V/.build"
mkdir -p "$B/bin" "$B/mod"
# The harness module is built with copies of its go.mod and go.sum.
cp "$V/harness/go.mod" "$B/mod/go.mod"
cp "$V/harness/go.sum" "$B/mod/go.sum"
# generated/version.go is produced by "go generate" in the repository; provide
# it the same way, without writing in /repo.
printf 'package generated\n\n// ClientVersion is the version of the Alda client.\nconst ClientVersion = "%s"\n' "$(tr -d '[:space:]' < /repo/VERSION)" > "$B/version.go"
printf '{"Replace": {"/repo/client/generated/version.go": "%s"}}\n' "$B/version.go" > "$B/overlay.json"
[ $# -gt 0 ] || set -- plain
cd "$V/harness"
for what in "$@"; do
  case $what in
    plain) go build -modfile "$B/mod/go.mod" -overlay "$B/overlay.json" -o "$B/bin/verif" ./cmd/verif ;;
    race) go build -race -modfile "$B/mod/go.mod" -overlay "$B/overlay.json" -o "$B/bin/verif-race" ./cmd/verif ;;
    alda) go build -modfile "$B/mod/go.mod" -overlay "$B/overlay.json" -o "$B/bin/alda" alda.io/client ;;
    alda-race) go build -race -modfile "$B/mod/go.mod" -overlay "$B/overlay.json" -o "$B/bin/alda-race" alda.io/client ;;
  esac
done
