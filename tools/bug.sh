#!/bin/bash
# bug.sh ID : confirm a planted bug in a scratch copy (/tmp/bw), then run its property's check on it.
# Development aid; nothing registered in MANIFEST.json uses it.
id="$1"; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -d /tmp/bw ] || cp -a /repo /tmp/bw
cd /tmp/bw || exit 1
git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd src
[ -z "$SKIPDEMO" ] && { bash $d/demo.sh > /tmp/demo0.log 2>&1; echo "demo unpatched: $? (want 0)"; }
git apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
[ -z "$SKIPDEMO" ] && { bash $d/demo.sh > /tmp/demo1.log 2>&1; echo "demo patched: $? (want non-0): $(tail -1 /tmp/demo1.log | cut -c1-150)"; }
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTUP_TOOLCHAIN=stable
cargo test -p procedural_modelling --no-fail-fast --offline --features bevy,gizmo,nalgebra,netsci,fonts,svg,wgpu -- --test-threads 8 > /tmp/bw.log 2>&1
python3 - <<P
import re,json
t=open('/tmp/bw.log').read()
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set(re.findall(r'^test (\S+) \.\.\. ok',t,re.M))
miss=[x for x in b if not any(x.endswith(o) for o in ok)]
print('stable tests not passing:',miss[:5], 'ok' if ok else 'BUILD FAILED')
P
git checkout -q -- .
[ -n "$NOCHECK" ] && exit
git -C /repo apply $d/patch.diff
(cd /verif && VERIF_SEED=1 ./check.sh $prop quick; echo "check $prop exit $? (want 1)")
git -C /repo checkout -q -- .
