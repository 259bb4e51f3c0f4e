#!/bin/bash
# check.sh C01            run the check of a property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE    replay a recorded violation against /repo's working tree
# check.sh setup          build everything once
# check.sh audit [Cxx]    large determinism audit of the simulator
set -u
. "$(dirname "$0")/env.sh"
cmd=${1:-}
shift || true
args() { [ "$(cat "$BUILD/mode")" = plain ] && echo -plain; }
case "$cmd" in
setup)
  exec "$ROOT/build.sh" race ;;
replay)
  race=""; grep -q '"race_build": true' "$1" && race=race
  "$ROOT/build.sh" $race || exit 2
  if [ -n "$race" ]; then GORACE="halt_on_error=1 exitcode=66" "$BUILD/simrun-race" replay "$1"; rc=$?
    [ $rc = 66 ] && { p=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$1" | head -1); echo "VIOLATION property=$p replay=$1"; rc=1; }
    exit $rc
  fi
  exec "$BUILD/simrun" replay "$1" ;;
audit)
  "$ROOT/build.sh" race || exit 2
  exec "$BUILD/simrun" audit ${1:+-prop $1} -racebin "$BUILD/simrun-race" -seed "${VERIF_SEED:-1}" ;;
C[0-9][0-9])
  rm -f "$ROOT/evidence/$cmd.json"
  case "$cmd" in C07|C08|C19|C21|C22) race=race ;; *) race="" ;; esac
  "$ROOT/build.sh" $race || exit 2
  exec "$BUILD/simrun" check -prop "$cmd" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -root "$ROOT" \
    -sites "$BUILD/overlay/sites.txt" ${race:+-racebin "$BUILD/simrun-race"} $(args) "$@" ;;
*)
  echo "usage: check.sh C01..C22 | replay FILE | setup | audit [Cxx]" >&2; exit 2 ;;
esac
