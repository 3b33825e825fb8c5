#!/bin/bash
# Build the simulator and the programs under test from /repo's working tree.
# Usage: build.sh {drv|drvtrace|bins}...
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
R=${REPO:-/repo}
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$V/target"
exec 9>"$V/target/.lock"; flock 9
(cd "$V/harness" && cargo build -q --offline --locked --release --target-dir "$V/target/harness")
export RUSTC_WRAPPER="$V/tools/rustc-wrap.sh" CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0
export RUSTFLAGS="-Clink-arg=$V/target/harness/release/libsimrt.so -Clink-arg=-Wl,-rpath,$V/target/harness/release -Awarnings"
T="--offline --target x86_64-unknown-linux-gnu --target-dir $V/target/sut"
# Cargo trusts modification times: also have it look again at sources whose content changed
new=$( (echo "$R"; cd "$R" && find . \( -name .git -o -name target \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$new" != "$(cat "$V/target/.sources" 2>/dev/null)" ] && [ -d "$V/target/sut" ]; then
  for f in "$V"/target/sut/*/*/.fingerprint/*/; do
    n=$(basename "$f"); n=${n%-*}
    if grep -qsx "name = \"$n\"" "$R/Cargo.toml" "$R"/*/Cargo.toml; then rm -r "$f"; fi
  done
fi
echo "$new" > "$V/target/.sources"
for w in "$@"; do
  case $w in
    drv) (cd "$V/drv" && cargo build -q --locked $T) ;;
    drvtrace) (cd "$V/drv" && cargo build -q --locked $T --features trace) ;;
    bins) (cd "$R" && cargo build -q --locked $T --bin crofiler -p crofiler -p simpp --bin simpp) ;;
  esac
done
