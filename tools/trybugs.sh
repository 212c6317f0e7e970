#!/bin/bash
# trybugs.sh [-a] [id...]: applies each planted bug to a scratch copy of /repo and runs the
# check of its property (with -a: every claimed check) from a scratch copy of /verif.
all=; [ "$1" = -a ] && { all=1; shift; }
V="$(cd "$(dirname "$0")/.." && pwd)"
T=$(mktemp -d /tmp/trybugs.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls "$V/seeded"))
mkdir "$T/verif" && cp -a "$V/check" "$V/build.inc.sh" "$V/known-findings.jsonl" "$V/properties.jsonl" "$V/MANIFEST.json" "$V/rewrite" "$V/sim" "$T/verif/"
for id in "${ids[@]}"; do
  cp -a /repo "$T/repo"
  git -C "$T/repo" checkout -q . && git -C "$T/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$T/repo"; continue; }
  p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$V/seeded/$id/meta.json")
  ps=$p; [ $all ] && ps=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])")
  res=
  for q in $ps; do
    s=$(date +%s)
    REPO_DIR="$T/repo" VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 "$T/verif/check" $q > "$T/out" 2>&1; rc=$?
    if [ $all ]; then [ $rc != 0 ] && res="$res $q:$rc"; else res="rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION "$T/out" | cut -c1-200)"; [ $rc = 0 ] && res="$res MISSED"; fi
  done
  echo "$id [$p] $res"
  rm -rf "$T/repo"
done
