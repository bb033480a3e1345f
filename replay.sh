#!/bin/bash
# usage: replay.sh FILE.json [log]   re-executes one recorded plan exactly
set -u
verif=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/lngsim.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
"$verif/tools/build.sh" "$work" >"$work/build.log" 2>&1 || { cat "$work/build.log" >&2; exit 2; }
if [ "${2:-}" = log ]; then "$work/sim" replay "$1" -v 1; else "$work/sim" replay "$1"; fi
