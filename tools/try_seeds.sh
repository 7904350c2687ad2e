#!/bin/bash
# try_seeds.sh [id ...]: run the check of each planted bug's property against a patched scratch copy
cd "$(dirname "$0")/.."
for id in "${@:-$(ls seeded)}"; do for s in $id; do
  w=$(mktemp -d /tmp/try_XXXX)
  cp -a /repo "$w/repo"; git -C "$w/repo" apply "$PWD/seeded/$s/patch.diff" || echo "no apply $s"
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO=$w/repo python3 run.py $p quick 2>&1); rc=$?
  echo "$s $p rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
  rm -rf -- "$w"
done; done
