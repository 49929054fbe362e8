#!/bin/bash
# usage: tools/unfix.sh [HASH...]     for each repaired defect (of known_findings.txt): undo its commit in a scratch copy that is
# shown as /repo in a mount namespace of its own, and run its property's check, which has to report it. PROP=CXX: this check instead.
if [ -z "$SEED_NS" ]; then SEED_NS=1 exec unshare -m "$0" "$@"; fi
cd "$(dirname "$0")/.." || exit 2
V=$PWD
W=$(mktemp -d /tmp/unfixXXXXXX)
git clone -q /repo "$W/r"
mount --bind "$W/r" /repo
sed -n 's/^fixed: property=\(C[0-9]*\) \([0-9a-f]*\) .*/\1 \2/p' known_findings.txt | while read -r p h; do
    [ $# -gt 0 ] && [[ " $* " != *" $h "* ]] && continue
    p=${PROP:-$p}
    cd /repo
    git checkout -q -f . && git reset -q --hard
    if ! git -c user.name=x -c user.email=x@x revert -n "$h" >/dev/null 2>&1; then
        git revert --abort 2>/dev/null; git reset -q --hard; echo "$p $h: conflict"; continue
    fi
    out=$(timeout 900 "$V/check.sh" "$p" ${TIER:-quick} 2>&1); rc=$?
    echo "$p $h: exit $rc $(echo "$out" | grep -m1 VIOLATION | cut -c1-40) | $(echo "$out" | tail -2 | head -1 | cut -c1-150)"
    git revert --quit 2>/dev/null; git reset -q --hard
done
cd "$V"
umount /repo
find "$W" -delete
