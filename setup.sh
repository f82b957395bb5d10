#!/bin/bash
# One-time check that the simulator builds here; every check builds its own copy from /repo's working tree.
set -e
HERE=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/gsdst-setup-XXXXXX); trap 'rm -rf "$T"' EXIT
bash "$HERE/sim/build.sh" "$T" "${SIM_REPO:-/repo}" && "$T/dst" run --prop C06 --std "$T/std.so" --nbc "$T/nbc.so" --out "$T" --seed 1 -n 200 --workers 2
