#!/bin/bash
# translates a package full of Go constructs and compares its simulated runs with its native one
cd "$(dirname "$0")/.." || exit 2
D=$(mktemp -d /tmp/stress.XXXXXX)
cp -a /repo "$D/repo"
mkdir -p "$D/repo/pkg/stress" "$D/repo/cmd/stress"
cp tools/stress/stress.go "$D/repo/pkg/stress/"
cat > "$D/repo/cmd/stress/main.go" <<'G'
package main

import (
	"fmt"
	"sort"

	"github.com/BTBurke/monny/pkg/stress"
)

func main() {
	var names []string
	for k := range stress.Cases {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Printf("%s: %s\n", n, stress.Cases[n]())
	}
}
G
cp -a rewrite sim tools build.inc.sh check "$D/"
cd "$D" || exit 2
export REPO_DIR="$D/repo"
. ./build.inc.sh
(cd repo && go run ./cmd/stress) > native.txt || exit 2
build_sim || exit 2
(cd sim && go build -modfile="$B/sim.mod" -o "$B/stress" ./cmd/stress) || exit 2
"$B/stress" "${1:-300}" > sim.txt || exit 2
diff native.txt sim.txt && echo "stress: $(wc -l < native.txt) cases agree"
r=$?
echo "$D"
exit $r
