#!/bin/bash
# Compiles the simulator once (fills the Go build cache) and runs its self-test.
set -eu
verif=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/lngsim.XXXXXX)
trap 'rm -rf "$work"' EXIT
"$verif/tools/build.sh" "$work"
"$work/sim" props >/dev/null
