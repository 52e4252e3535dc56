#!/bin/bash
# Builds the conformance driver against /repo's working tree: build.sh OUTPUT [go build flags]
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
R="${VERIF_REPO:-/repo}"
OUT="$1"; shift
D="$(dirname "$OUT")"; mkdir -p "$D"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED="${CGO_ENABLED:-0}"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOFLAGS=
python3 - "$V" "$R" "$OUT.overlay.json" <<'P'
import json, sys, os
v, r, o = sys.argv[1:]
rep = {r + "/go.mod": v + "/gomod/freetype.mod"}
for f in sorted(os.listdir(v + "/harness")):
    if f.endswith(".go"):
        rep[r + "/verifharness/" + f] = v + "/harness/" + f
json.dump({"Replace": rep}, open(o, "w"))
P
cd "$R"
go build -modfile="$V/gomod/freetype.mod" -overlay="$OUT.overlay.json" -buildvcs=false "$@" -o "$OUT" ./verifharness
