#!/usr/bin/env bash
# hunt.sh [ID...]: applies each planted bug to /repo in turn, runs its property's quick check, undoes it.
V="$(cd "$(dirname "$0")/.." && pwd)"
cd "$V"
for d in ${@:-$(ls seeded)}; do
    p="$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")"
    git -C /repo apply "$V/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
    t=$SECONDS
    out="$(./check.sh "$p" quick 2>&1 | tr -d "\0"; exit ${PIPESTATUS[0]})"; rc=$?
    git -C /repo checkout -- .
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "$d: caught by $p ($((SECONDS-t)) s) $(grep -B1 '^VIOLATION' <<<"$out" | head -1 | cut -c1-160)"; else echo "$d: MISSED by $p (rc $rc, $((SECONDS-t)) s) $(tail -2 <<<"$out")"; fi
done
