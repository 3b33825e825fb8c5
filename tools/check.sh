#!/bin/bash
# Build the simulator, then check one property: check.sh PROPERTY [simctl options]
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V" && bash tools/build.sh || { echo "cannot build the simulator" >&2; exit 2; }
exec target/harness/release/simctl check "$@"
