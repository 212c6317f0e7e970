#!/bin/bash
# cwd: the repository. Builds monny and the demonstration, runs them in a scratch folder.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
mkdir "$T/scratch"
export MONNY="$T/monny" SCRATCH="$T/scratch"
{ printf '{"Replace":{'
  sep=
  for f in "$D"/*.go; do printf '%s"%s/cmd/zzdemo/%s":"%s"' "$sep" "$PWD" "$(basename "$f")" "$f"; sep=,; done
  printf '}}'; } > "$T/overlay.json"
go build -o "$MONNY" ./cmd/monny || exit 99
go build -overlay "$T/overlay.json" -o "$T/demo" ./cmd/zzdemo || exit 99
cd "$SCRATCH" || exit 99
"$T/demo"
