#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   (run from anywhere)
# Builds the simulator against /repo's working tree and runs one check.
set -u
prop=${1:?property}; tier=${2:-${VERIF_TIER:-quick}}
verif=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d /tmp/lngsim.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
"$verif/tools/build.sh" "$work" >"$work/build.log" 2>&1 || { cat "$work/build.log" >&2; exit 2; }
export TMPDIR=$work
extra=()
[ -n "${SIM_RUNS:-}" ] && extra+=(-runs "$SIM_RUNS")
[ -n "${SIM_WALL:-}" ] && extra+=(-wall "$SIM_WALL")
"$work/sim" check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$verif" "${extra[@]}"
