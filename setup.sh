#!/bin/bash
# Compiles the harness once (fills the Go build cache) and checks that it vets.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS='-mod=mod -buildvcs=false' GOWORK=off
scratch="$(mktemp -d "${TMPDIR:-/tmp}/verif-setup.XXXXXX")"
trap 'rm -rf "$scratch"' EXIT
cp -r "$here/harness" "$scratch/harness"
cd "$scratch/harness"
go vet ./...
go test -c -o "$scratch/h.test" ./h
