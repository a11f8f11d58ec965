#!/bin/bash
# bash run.sh check <property> <quick|thorough>   decides a property for /repo
# bash run.sh replay <file>                       executes a replay file again
# bash run.sh selftest [runs] [seeds]             proves that runs are repeatable
# bash run.sh setup                               warms the build cache
# Exit status: 0 held, 1 VIOLATION, 2 error of the check.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod GOWORK=off
CMD=${1:?usage: run.sh check|replay|selftest|setup ...}
SEED=${VERIF_SEED:-1}
T=$(mktemp -d "${TMPDIR:-/tmp}/dawgsim.XXXXXX") || exit 2
trap 'rm -rf -- "$T"' EXIT
trap 'exit 2' INT TERM
err() { echo "error: $*" >&2; exit 2; }

cp -r "$HERE/sim/instrument" "$HERE/sim/harness" "$T/" || err copy
mv "$T/harness/go.mod.txt" "$T/harness/go.mod" || err copy
(cd "$T/instrument" && go build -o "$T/instr" .) || err "building the instrumenter"

# A Go runtime whose random source (order of map iterations, math/rand) is seeded.
OV=
"$T/instr" -overlay "$T/overlay" && OV="-overlay=$T/overlay/overlay.json"

coarse=0
make_tree() { # yields resets
  rm -rf -- "$T/dawg"
  "$T/instr" -repo "$REPO" -out "$T/dawg" -shims "$HERE/sim/shims" "-yields=$1" "-resets=$2" ${OV:+-seeded} || return 1
  (cd "$T/harness" && go build $OV -o "$T/sim" .) >"$T/build.log" 2>&1 || return 1
  (cd "$T/dawg" && go build $OV -o "$T/tool" ./cmd/dawgtool) >>"$T/build.log" 2>&1 || return 1
}
if ! make_tree true true && ! { cat "$T/build.log" >&2; make_tree true false; }; then
  cat "$T/build.log" >&2
  coarse=1
elif grep -q '"concurrent":true' "$T/dawg/verif_meta.json"; then
  coarse=1
fi
if [ $coarse = 1 ]; then
  make_tree false false || { cat "$T/build.log" >&2; err "building the simulator from $REPO"; }
fi
export VERIF_COARSE=$coarse VERIF_TOOL="$T/tool" VERIF_SCRATCH="$T/scratch"
mkdir -p "$T/scratch"
race() { (cd "$T/harness" && go build -race $OV -o "$T/sim.race" .) || err "building the race-armed simulator"; }

case $CMD in
check)
  PROP=${2:?property}; TIER=${3:-${VERIF_TIER:-quick}}
  RACE=
  case $PROP in C04|C05|C06|C07|C08|C09|C10|C13|C14) race; RACE="$T/sim.race";; esac
  mkdir -p "$HERE/evidence" "$HERE/replays"
  rm -f -- "$HERE/evidence/$PROP.json"
  "$T/sim" check -prop "$PROP" -tier "$TIER" -seed "$SEED" -race "$RACE" -tmp "$T/scratch" \
    -replays "$HERE/replays" -evidence "$HERE/evidence/$PROP.json" -meta "$T/dawg/verif_meta.json"
  rc=$?
  ;;
replay)
  F=${2:?replay file}
  race
  "$T/sim" replay -race "$T/sim.race" -tmp "$T/scratch" "$F"
  rc=$?
  ;;
selftest)
  "$T/sim" selftest -runs "${2:-300}" -seeds "${3:-4}" -tmp "$T/scratch"
  rc=$?
  ;;
setup)
  race
  rc=0
  ;;
shell) # for development: keep the build until the command ends
  shift; export T; "$@"; rc=$?
  ;;
*) err "unknown command $CMD" ;;
esac
[ $rc = 0 ] || [ $rc = 1 ] || rc=2
exit $rc
