#!/bin/bash
# Builds the simulator from /repo's current working tree into /verif/.build (git-ignored).
# Usage: build.sh ; prints nothing on success. Exit 3 when the build fails.
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$V/.build}
GR=/opt/veriftools/go1.27.3
export PATH="$GR/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}" HOME="${HOME:-/root}"
export GOROOT=$GR GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= CGO_ENABLED=0
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
mkdir -p "$B" || exit 3
exec 9>"$B/lock"; flock 9
if [ ! -x "$B/instrument" ] || [ "$V/tools/instrument/main.go" -nt "$B/instrument" ]; then
  (cd "$V/tools/instrument" && go build -o "$B/instrument" .) || exit 3
fi
"$B/instrument" "$REPO" "$V/sim" "$B" "$GOMODCACHE" || exit 3
(cd "$REPO" && go build -mod=mod -modfile="$B/zrep.mod" -overlay "$B/overlay.json" -o "$B/sim.new" ./verifmain) || exit 3
mv -f "$B/sim.new" "$B/sim"
