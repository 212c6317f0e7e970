# sourced by check and setup: builds the simulator against /repo's working tree
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export REPO_DIR="${REPO_DIR:-/repo}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
B="$VERIF_DIR/build"

build_sim() {
  mkdir -p "$B" || return 2
  exec 9>"$B/lock"
  flock 9
  (cd "$VERIF_DIR/rewrite" && go build -o "$B/simrewrite" .) || { echo "check: cannot build the translator"; return 2; }
  local T="$B/monny.new"
  rm -rf "$VERIF_DIR/build/monny.new"
  mkdir -p "$T"
  cp "$REPO_DIR/go.mod" "$B/repo.mod" && cp "$REPO_DIR/go.sum" "$B/repo.sum" || return 2
  "$B/simrewrite" -repo "$REPO_DIR" -out "$T" -modfile "$B/repo.mod" || { echo "check: cannot translate $REPO_DIR"; return 2; }
  { sed 's/^go 1\..*/go 1.21/' "$REPO_DIR/go.mod"; echo 'require simverif v0.0.0'; } > "$T/go.mod"
  # keep unchanged files' timestamps out of it: the go build cache works by content
  rm -rf "$VERIF_DIR/build/monny"
  mv "$T" "$B/monny"
  cp "$VERIF_DIR/sim/go.mod" "$B/sim.mod"
  cp "$VERIF_DIR/sim/go.sum" "$B/sim.sum"
  sed -i "s#=> ../build/monny#=> $B/monny#; s#simverif => ./#simverif => $VERIF_DIR/sim#" "$B/sim.mod"
  (cd "$VERIF_DIR/sim" && go build -modfile="$B/sim.mod" $SIM_BUILD_FLAGS -o "$B/simcheck" ./cmd/simcheck) || { echo "check: cannot build the simulation"; return 2; }
  flock -u 9
  exec 9>&-
}
