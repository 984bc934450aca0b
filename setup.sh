#!/bin/bash
# Warms the build cache: the checks build what they need themselves.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOWORK=off
cd "$here/mc" || exit 1
work="$(mktemp -d /tmp/verif-setup.XXXXXX)" || exit 1
trap 'rm -rf "$work"' EXIT
go build -o "$work/" ./cmd/run ./cmd/mc ./cmd/instr || exit 1
go build -race -o "$work/conc" ./cmd/conc || exit 1
go build -tags "purego noasm" -o "$work/mc2" ./cmd/mc || exit 1
exit 0
