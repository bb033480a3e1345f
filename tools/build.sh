#!/bin/bash
# usage: build.sh OUTDIR [REPO]   builds OUTDIR/sim against REPO (default /repo)
set -eu
out=${1:?}; repo=${2:-/repo}
verif=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
mkdir -p "$out"
python3 "$verif/overlay/gen.py" "$(go env GOROOT)" "$out/overlay"
cp "$verif/sim/go.mod" "$out/go.mod"; cp "$verif/sim/go.sum" "$out/go.sum"
go mod edit -replace "github.com/booleworks/logicng-go=$repo" "$out/go.mod"
cd "$verif/sim"
go build -overlay "$out/overlay/overlay.json" -modfile "$out/go.mod" -o "$out/sim" .
