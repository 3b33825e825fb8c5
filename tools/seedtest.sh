#!/bin/bash
# seedtest.sh ID: in a scratch copy of /repo, check that the planted bug builds, passes the tests and is shown by its demo
set -u
id=$1
S=/tmp/seedcopy
if [ ! -d $S ]; then cp -a /repo $S; fi
. /opt/vp/env.sh; cd $S && git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD
touch cmakeperf/src/lib.rs clang-time-trace/src/lib.rs
if [ "${2:-}" != patched ]; then
 sh /verif/seeded/$id/demo.sh > /tmp/seed-$id.clean.log 2>&1; echo "$id clean rc=$?"
fi
git apply /verif/seeded/$id/patch.diff || { echo "$id patch does not apply"; exit 1; }
sed 's#/repo#/tmp/seedcopy#g' /opt/vp/build.sh > /tmp/seedbuild.sh
(cargo test --workspace --all-targets --no-run --offline 2>&1) > /tmp/seed-$id.build.log; echo "$id build rc=$?"
if [ "${NOTEST:-}" = "" ]; then
for i in 1 2; do (cargo test --workspace --all-targets --no-fail-fast --offline 2>&1) > /tmp/seed-$id.test.log; echo "$id tests rc=$? $(grep -c '\.\.\. ok' /tmp/seed-$id.test.log) ok; failed: $(grep -E '^test .*FAILED' /tmp/seed-$id.test.log | tr '\n' ' ')"; done
fi
sh /verif/seeded/$id/demo.sh > /tmp/seed-$id.patched.log 2>&1; echo "$id patched rc=$?"
tail -3 /tmp/seed-$id.patched.log
git checkout -q -- .
