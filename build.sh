#!/bin/bash
# build.sh OUTDIR: builds the simulator from /repo's working tree into OUTDIR/vsim
set -e
OUT=$1
mkdir -p "$OUT"
. /opt/vp/env.sh >/dev/null 2>&1 || true
REPO=${VERIF_REPO:-/repo} # set only to try planted changes in a scratch copy
cd "$REPO"
export CGO_ENABLED=0 GOFLAGS=-mod=mod GOPROXY=off
python3 /verif/simgo/gen_overlay.py "$OUT" "$OUT/ov.json" "$REPO" /verif/sim
go build -overlay "$OUT/ov.json" -o "$OUT/vsim" ./zzverif/cmd/vsim
