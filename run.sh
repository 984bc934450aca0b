#!/bin/bash
# usage: run.sh <property> [quick|thorough] [-only <case key>]
# Exit 0: the property held on everything explored. Exit 1 and a VIOLATION
# line: it is broken. Anything else: the check could not be run.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOWORK=off
p="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
work="$(mktemp -d /tmp/verif-mc.XXXXXX)" || exit 3
trap 'rm -rf "$work"' EXIT
cd "$here/mc" || exit 3
go build -o "$work/run" ./cmd/run || exit 3
"$work/run" -p "$p" -tier "$tier" -verif "$here" -work "$work" "$@"
exit $?
