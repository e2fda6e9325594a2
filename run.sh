#!/bin/bash
# Usage: run.sh check ID [quick|thorough] | run.sh replay FILE
# Builds the simulators from /repo's present tree and runs them.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
export VSIM_VERIF="$here"
bin=$(mktemp /tmp/vsim-bin-XXXXXX) || exit 2
(cd "$here/go" && go build -trimpath -o "$bin" ./cmd/vsim) || { rm -f "$bin"; exit 2; }
[ "$1" = setup ] && { rm -f "$bin"; echo ready; exit 0; }
"$bin" "$@"
rc=$?
rm -f "$bin"
exit $rc
