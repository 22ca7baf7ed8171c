#!/bin/bash
# build.sh OUTDIR [race]: instruments the sources of $VERIF_REPO (/repo) and
# builds the simulator around them in OUTDIR. Nothing is written elsewhere,
# except in the build cache of the go command.
set -u
OUT=$1
RACE=${2:-}
REPO=${VERIF_REPO:-/repo}
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1
[ -n "${HOME:-}" ] || export GOCACHE=${GOCACHE:-$OUT/gocache}
mkdir -p "$OUT"
if [ ! -x "$OUT/instr" ]; then
  (cd "$HERE/sim/instr" && GOFLAGS= GO111MODULE=off go build -o "$OUT/instr" main.go) || exit 2
fi
sed "s#=> /repo#=> $REPO#" "$HERE/sim/go.mod" > "$OUT/go.mod"
cp "$HERE/sim/go.sum" "$OUT/go.sum"
for level in 3 2 1; do
  mkdir -p "$OUT/o$level"
  "$OUT/instr" -repo "$REPO" -rt "$HERE/sim/rt" -out "$OUT/o$level" -level $level || continue
  cp "$OUT/o$level/sites.json" "$OUT/sites.json"
  if [ -n "$RACE" ]; then
    "$OUT/instr" -pool "$OUT/o$level" || exit 2
    (cd "$HERE/sim" && GOEXPERIMENT=nosizespecializedmalloc go build -race -gcflags='verif.sim/...=-race=false' -gcflags='github.com/grepsuzette/joeson/verifrt=-race=false -l' \
      -modfile="$OUT/go.mod" -overlay "$OUT/o$level/overlay.json" -o "$OUT/simrace" ./harness) && exit 0
  else
    (cd "$HERE/sim" && go build -modfile="$OUT/go.mod" -overlay "$OUT/o$level/overlay.json" -o "$OUT/sim" ./harness) && exit 0
  fi
  echo "build.sh: the build failed with instrumentation level $level" >&2
done
exit 2
