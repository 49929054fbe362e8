#!/bin/bash
# usage: tools/seed.sh ID...      confirm a planted change in a scratch copy: it applies, builds, passes the stable tests, and
#                                 the demonstration passes without it and fails with it; then run its property's check on it.
# The scratch copy is shown as /repo in a mount namespace of its own, so /repo itself is not touched.
# MORE="C01 .."  run these checks too;  TIER=thorough;  SHOW=1 prints the check's output
if [ -z "$SEED_NS" ]; then SEED_NS=1 exec unshare -m "$0" "$@"; fi
cd "$(dirname "$0")/.." || exit 2
V=$PWD
export PYTHONDONTWRITEBYTECODE=1
HEAD=$(git -C /repo rev-parse HEAD)
for id in "$@"; do
    S=$V/seeded/$id
    W=$(mktemp -d /tmp/seedXXXXXX)
    mkdir "$W/r" "$W/s"; cp "$S"/* "$W/s"; chmod +x "$W/s/demo.sh"
    git -C /repo archive "$HEAD" | tar x -C "$W/r"
    mount --bind "$W/r" /repo
    cd /repo
    timeout 300 bash "$W/s/demo.sh" >"$W/demo0" 2>&1 || { echo "$id: DEMO FAILS WITHOUT THE CHANGE"; tail -5 "$W/demo0"; }
    patch -s -p1 --dry-run <"$S/patch.diff" >/dev/null && git apply "$S/patch.diff" || echo "$id: DOES NOT APPLY"
    bash /opt/vp/build.sh >"$W/b" 2>&1 || echo "$id: DOES NOT BUILD"
    timeout 300 bash "$W/s/demo.sh" >"$W/demo1" 2>&1 && echo "$id: DEMO PASSES WITH THE CHANGE"
    bash /opt/vp/test.sh "$W/o.json" >"$W/t" 2>&1
    passed=$(python3 -c "
import json
d=json.load(open('$W/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('%d of %d stable tests pass' % (len(set(b['stable']) & set(d['passed'])), len(b['stable'])))")
    prop=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
    for p in $prop $MORE; do
        out=$(timeout 900 "$V/check.sh" "$p" ${TIER:-quick} 2>&1); rc=$?
        echo "$id: $passed; $p exit $rc: $(echo "$out" | grep -m1 VIOLATION)"
        [ -n "$SHOW" ] && echo "$out" | tail -15
    done
    cd "$V"
    umount /repo
    find "$W" -delete
done
