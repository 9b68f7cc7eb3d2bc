#!/bin/bash
# runplants.sh [ID...]: runs the quick check of each planted bug's property against a
# scratch copy of /repo with the bug applied. "property+other" may be given as ID:PROP.
cd /verif && ./build.sh || exit 2
[ $# = 0 ] && set -- $(ls seeded)
for a in "$@"; do
  id=${a%%:*}; prop=${a#*:}; [ "$prop" = "$a" ] && prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/rp_XXXXXX); cp -a /repo "$w/repo"
  git -C "$w/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  s=$(date +%s); VERIF_SEED=1 timeout 900 ./bin/verif check $prop -tier quick -repo "$w/repo" > "$w/out" 2>&1; rc=$?
  echo "$id $prop rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^VIOLATION\|ERROR\|INCOMPLETE' "$w/out" | cut -c1-140)"
  [ $rc = 1 ] || tail -5 "$w/out" | cut -c1-300
  /bin/rm -rf "$w"
done
