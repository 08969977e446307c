#!/bin/bash
# seedcheck.sh [ID...]: run the check of each planted bug's property on a scratch copy of /repo that carries it.
cd /verif/seeded || exit 3
for i in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  d=$(mktemp -d /tmp/seedcheck.XXXXXX)
  cp -a /repo/. "$d"/ && rm -rf "$d"/.git
  if ! (cd "$d" && git apply --unsafe-paths --directory="$d" /verif/seeded/$i/patch.diff 2>/dev/null || patch -s -p1 -d "$d" < /verif/seeded/$i/patch.diff); then echo "$i: patch does not apply"; rm -rf "$d"; continue; fi
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} SIM_REPO=$d /opt/venv/bin/python /verif/check.py $p --no-evidence > "$d.log" 2>&1; rc=$?
  echo "$i $p rc $rc $(( $(date +%s)-s ))s $(grep -a -c VIOLATION "$d.log")"
  [ $rc = 1 ] || cp "$d.log" /tmp/missed-$i.log
  rm -rf "$d" "$d.log"
done
