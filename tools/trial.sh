#!/bin/bash
# trial.sh ID [Cxx...]: runs the check of a planted bug's property (or the given ones) on a patched copy of /repo
cd "$(dirname "$0")/.."
id=$1; shift
prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
d=$(mktemp -d /tmp/trial.XXXXXX)
cp -a /repo $d/repo
git -C $d/repo checkout -q -- .
git -C $d/repo apply $PWD/seeded/$id/patch.diff || { rm -rf $d; exit 9; }
for c in ${@:-$prop}; do
    s=$(date +%s)
    out=$(DST_REPO=$d/repo DST_EVIDENCE=$d/ev ./check $c 2>&1); rc=$?
    echo "$id $c rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION)"
    [ -n "$VERBOSE" ] && echo "$out"
done
rm -rf $d
