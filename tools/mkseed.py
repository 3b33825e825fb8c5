#!/usr/bin/env python3
"""mkseed.py ID PROP CRATE  — writes demo.sh and meta.json skeleton of a planted bug."""
import sys, json, os
def write(id, prop, needs, breaks, crate, shim=False, env="", bins=False):
    d=f"/verif/seeded/{id}"; os.makedirs(d,exist_ok=True)
    s=f"/tmp/crofiler-demo-{id.lower()}"
    deps = {"cmakeperf":'cmakeperf = { path = "$repo/cmakeperf" }\nlog = "0.4"\n',
            "clang-time-trace":'clang-time-trace = { path = "$repo/clang-time-trace" }\n'}
    sh=f'''#!/bin/sh
# Exits 0 if the property holds for the tree in the current directory
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
rm -rf {s}
mkdir -p {s}/crate/src {s}/work
trap 'rm -rf {s}' EXIT
cp "$here/main.rs" {s}/crate/src/main.rs
cp "$repo/Cargo.lock" {s}/crate/Cargo.lock
cat > {s}/crate/Cargo.toml <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
{deps[crate]}END
(cd {s}/crate && CARGO_TARGET_DIR={s}/target cargo build --offline -q)
'''
    if shim:
        sh+=f'gcc -shared -fPIC -O1 -o {s}/shim.so "$here/shim.c" -ldl\n'
    pre = f"{s}/shim.so" if shim else ""
    sh+=f'''cd {s}/work
set +e
{"LD_PRELOAD="+pre+" " if shim else ""}{env}timeout -k 5 120 {s}/target/debug/demo
rc=$?
echo "demo exit status $rc"
exit $rc
'''
    open(f"{d}/demo.sh","w").write(sh); os.chmod(f"{d}/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f"{d}/meta.json","w"),indent=1)
