#!/bin/bash
# replay.sh FILE [REPO]: rebuilds the simulator from the working tree and re-executes one recorded violation.
# exit 1: reproduced exactly; SIM_TRACE=1 prints the full event trace.
H=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
bash "$H/sim/build.sh" "$W" "${2:-/repo}" >/dev/null || exit 2
"$W/dst" replay "$1" --std "$W/std.so" --nbc "$W/nbc.so"
