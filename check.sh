#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's current working tree
# check.sh replay FILE                 reproduce a reported violation
# check.sh build                       build only (setup)
# Environment: VERIF_SEED, VERIF_TIER, VERIF_RUNS (number of runs), VERIF_WORKERS, VERIF_REPO (default /repo)
set -u
[ "${1:-}" = replay ] && { FILE=$(realpath -- "${2:?file}") || exit 2; set -- replay "$FILE"; }
cd "$(dirname "$0")" || exit 2
V=$PWD
REPO=${VERIF_REPO:-/repo}
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
PROP=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
mkdir -p "$V/.build" || exit 2
B=$(mktemp -d "$V/.build/b.XXXXXXXX") || exit 2
trap 'rm -rf "$B"' EXIT
case $PROP in replay) P=$(sed -n 's/^ "property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1);; *) P=$PROP;; esac

die() { echo "check: $*" >&2; exit 2; }

cp -r "$V/sim" "$B/sim" || die copy
[ "$REPO" = /repo ] || sed -i "s#=> /repo#=> $REPO#" "$B/sim/go.mod"
cd "$B/sim" || die cd
mkdir "$B/w"
go build -o "$B/weave" ./cmd/weave || die "build of the weaver"
PART=""; [ "$P" = C08 ] && PART=ripemd160
"$B/weave" "$REPO" "$B/w" $PART || die weave
MODE=none; TAGS=""
# the tree under test must compile by itself: otherwise there is nothing to decide
(cd "$REPO" && go build ./pkg/...) || die "$REPO does not build"
GEN=""
if [ "$P" = C12 ]; then
  go build -o "$B/gentool" ./cmd/gentool || die "build of gentool"
  if [ "$PROP" = replay ]; then "$B/gentool" -dir "$B/sim" -replay "$2"
  else "$B/gentool" -dir "$B/sim" -seed "$SEED" -tier "$TIER" -evidence "$V/evidence/C12.json" -replays "$V/replays"; fi
  case $? in 0) ;; 1) exit 1;; 3) exit 0;; *) die "generation of codecs";; esac
  GEN=,simgen
fi
build() { # name flags...
  local out=$1; shift
  if go build "$@" -tags simmaps$GEN -overlay "$B/w/overlay.json" -o "$B/$out" ./cmd/simrun 2>"$B/err1"; then MODE=woven+maps
  elif go build "$@" -tags "x$GEN" -overlay "$B/w/overlay.json" -o "$B/$out" ./cmd/simrun 2>>"$B/err1"; then MODE=woven
  elif go build "$@" -tags simmaps$GEN -overlay "$B/w/maps.json" -o "$B/$out" ./cmd/simrun 2>>"$B/err1"; then MODE=maps
  elif go build "$@" -tags "x$GEN" -o "$B/$out" ./cmd/simrun; then MODE=plain
  else cat "$B/err1" >&2; die "build of the simulator"; fi
}
if [ "$P" = C07 ]; then build simrun -race; else build simrun; fi
[ "$PROP" = build ] && { echo "built: $MODE"; exit 0; }
cd "$V" || exit 2
if [ "$PROP" = replay ]; then
  "$B/simrun" replay -dict "$B/w/dict.json" "$2"; exit $?
fi
"$B/simrun" check -prop "$PROP" -tier "$TIER" -seed "$SEED" -dict "$B/w/dict.json" -binary "$MODE" \
  -evidence "$V/evidence/$PROP.json" -replays "$V/replays" ${VERIF_RUNS:+-runs $VERIF_RUNS} ${VERIF_WORKERS:+-workers $VERIF_WORKERS} ${VERIF_ARGS:-}
exit $?
