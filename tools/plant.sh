#!/bin/bash
# tools/plant.sh ID...   confirm planted bugs in the scratch copy /tmp/sc (cp -a /repo /tmp/sc)
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= PYO3_PYTHON=/usr/bin/python3
unset CARGO_TARGET_DIR VERIF_ROOT
SEEDED="$(cd "$(dirname "$0")/.." && pwd)/seeded"
cd /tmp/sc || exit 1
git fetch -q "$SEEDED/../../repo" HEAD && git reset -q --hard FETCH_HEAD
build() { cargo test --workspace --features qlever --no-run --offline --locked >/tmp/sc.build 2>&1 &&
    rm -f target/vp/py/pyrudof.so target/debug/libpyrudof.so && mkdir -p target/vp/py &&
    cargo build -p pyrudof --lib --features pyrudof/extension-module --offline --locked >>/tmp/sc.build 2>&1 && ln -f target/debug/libpyrudof.so target/vp/py/pyrudof.so; }
build || { tail -30 /tmp/sc.build; exit 1; }
declare -A CLEAN
for id in "$@"; do timeout 300 bash $SEEDED/$id/demo.sh >/tmp/sc.demo0 2>&1; CLEAN[$id]=$?; done
for id in "$@"; do
    d=$SEEDED/$id; clean=${CLEAN[$id]}
    if ! git apply $d/patch.diff; then echo "$id: patch does not apply"; continue; fi
    if build; then
        timeout 300 bash $d/demo.sh >/tmp/sc.demo1 2>&1; bug=$?
        timeout -k 10 400 cargo test --workspace --features qlever --no-fail-fast --offline --locked -- --test-threads 8 >/tmp/sc.tests 2>&1
        miss=$(python3 - <<'P'
import json,re
st=[x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x.startswith('cargo::') or not x.startswith('python')]
import subprocess
subprocess.run(['python3','/opt/vp/results.py','/tmp/sc.json','cargo:/tmp/sc.tests'],stdout=subprocess.DEVNULL)
p=set(json.load(open('/tmp/sc.json'))['passed'])
print([x for x in st if x not in p and not x.startswith('python')][:5])
P
)
        echo "$id: demo clean=$clean bug=$bug missing tests $miss"
    else
        echo "$id: build fails"; grep -E '^error' -A6 /tmp/sc.build | head -20
    fi
    git checkout -q -- .
    touch $(git -C /tmp/sc apply --numstat $d/patch.diff | cut -f3)
done
