#!/bin/bash
# runall.sh [-n N] [-s SEED] [REPO]: builds once against REPO (default /repo) in a scratch copy and runs every
# claimed check; prints those which do not exit 0.
N=; SEED=1
while getopts n:s: o; do case $o in n) N="-n $OPTARG";; s) SEED=$OPTARG;; *) exit 2;; esac; done; shift $((OPTIND-1))
V="$(cd "$(dirname "$0")/.." && pwd)"
T=$(mktemp -d /tmp/runall.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
cp -a "$V/check" "$V/build.inc.sh" "$V/known-findings.jsonl" "$V/properties.jsonl" "$V/MANIFEST.json" "$V/rewrite" "$V/sim" "$T/"
export REPO_DIR="${1:-/repo}"
cd "$T" && . ./build.inc.sh && build_sim || { echo "BUILD FAILED for $REPO_DIR"; exit 2; }
bad=0
for q in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])"); do
  timeout 900 "$B/simcheck" -prop $q -tier quick -seed $SEED -dir "$T" $N > out 2>&1; rc=$?
  [ $rc != 0 ] && { bad=1; echo "$q rc=$rc"; grep -m2 -E 'VIOLATION|panic|error' out | cut -c1-300; mkdir -p /tmp/runall.out; cp out /tmp/runall.out/$q; }
done
[ $bad = 0 ] && echo "all quiet: $REPO_DIR"
exit $bad
