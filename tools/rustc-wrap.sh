#!/bin/sh
# rustc wrapper: edge instrumentation for the crates under test
rustc="$1"; shift
crate=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && crate="$a"; prev="$a"; done
case " asylum clang_time_trace cmakeperf cpparser crofiler simpp crossbeam_deque atomic_wait " in
 *" $crate "*) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
