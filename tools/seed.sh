#!/bin/bash
# tools/seed.sh <id> : checks a planted bug in a scratch copy: applies, builds, passes the stable tests,
# demo.sh fails with it and passes without it.
id=$1; d=/verif/seeded/$id
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.80.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUST_BACKTRACE=0
[ -d /tmp/wt ] || cp -a /repo /tmp/wt
cd /tmp/wt && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD || exit 9
export CARGO_TARGET_DIR=/tmp/wt/target
lay=$(mktemp -d); cp -r $d/. $lay/; rm -f $lay/*.diff $lay/*.patch $lay/meta.json
run() { ( cd /tmp/wt && unset CARGO_TARGET_DIR && timeout 300 bash $lay/demo.sh ) >/tmp/seed.out 2>&1; }
git apply --check $d/patch.diff || { echo "$id: does not apply"; exit 1; }
cargo build --workspace --offline --quiet 2>/tmp/seed.build || { cat /tmp/seed.build; exit 1; }
run; a=$?; cp /tmp/seed.out /tmp/seed.clean
git apply $d/patch.diff
cargo build --workspace --offline --quiet 2>/tmp/seed.build || { tail -30 /tmp/seed.build; git checkout -q -- .; echo "$id: does not build"; exit 1; }
run; b=$?
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/seed.test 2>&1
python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.test >/dev/null
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    for k in ('stable','passed','pass'):
        if k in x: return set(x[k])
    return {n for n,v in x.get('tests',x).items() if v in ('passed','pass','ok',True)}
miss=names(b)-names(r)
print('tests', 'ok' if not miss else 'FAIL %s'%sorted(miss)[:5])
P
git checkout -q -- .
echo "$id: clean=$a patched=$b  $(tail -1 /tmp/seed.out | cut -c1-200)"
[ $a = 0 ] || cat /tmp/seed.clean
[ $b != 0 ] || cat /tmp/seed.out
rm -rf "$lay"
