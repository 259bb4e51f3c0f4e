#!/bin/bash
# build.sh [race]: instruments /repo's working tree into .build and compiles the simulator with it.
# Leaves in .build: simrun, simrun-race (with "race"), overlay/, mode (instrumented or plain).
set -u
. "$(dirname "$0")/env.sh"
cd "$ROOT/sim" || exit 2
mkdir -p "$BUILD" || exit 2
rm -rf "$BUILD/overlay" "$BUILD/simrun" "$BUILD/simrun-race" "$BUILD/mode"
go build -o "$BUILD/instr" ./cmd/instr || { echo "build.sh: cannot build the instrumenter" >&2; exit 2; }

compile() { # mode
  local opt=""
  [ "$1" = plain ] && opt=-plain
  rm -rf "$BUILD/overlay"
  "$BUILD/instr" -repo "$REPO" -out "$BUILD/overlay" $opt || return 1
  go build -overlay "$BUILD/overlay/overlay.json" -o "$BUILD/simrun" ./cmd/simrun || return 1
  if [ "${2:-}" = race ]; then
    go build -race -overlay "$BUILD/overlay/overlay.json" -o "$BUILD/simrun-race" ./cmd/simrun || return 1
  fi
  # the instrumenter falls back by itself for trees that use channels
  if grep -q simrt.Y -r "$BUILD/overlay" --include=*.go -l >/dev/null; then echo instrumented; else echo plain; fi > "$BUILD/mode"
}

compile instrumented "${1:-}" && exit 0
echo "build.sh: instrumented build failed; trying without statement-level yield points" >&2
compile plain "${1:-}" && exit 0
echo "build.sh: /repo does not build with the simulator" >&2
exit 2
