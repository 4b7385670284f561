#!/bin/bash
# run.sh <property> [quick|thorough] [extra flags of cmd/mon]
# Builds the monitors together with /repo's current working tree, runs the
# check of one property, and reports.
# Exit 0: held. Exit 1 + VIOLATION line: broken. Anything else: no answer.
set -u
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
SEED=${VERIF_SEED:-1}
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
EV=$HERE/evidence
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB=* GONOSUMCHECK=1
[ -f "$REPO/go.mod" ] || cp /opt/vp/mod/go.mod "$REPO/go.mod"
[ -f "$REPO/go.sum" ] || cp /opt/vp/mod/go.sum "$REPO/go.sum"
mkdir -p "$EV/replay"
WORK=$(mktemp -d "${TMPDIR:-/tmp}/verif-$ID-XXXXXX") || exit 2
trap 'rm -rf -- "$WORK"' EXIT
mkdir -p "$WORK/h" "$WORK/w"
# a private copy of the harness module, so that parallel checks and the go
# command never write into /verif
cp -r "$HERE/harness/." "$WORK/h/"
RACE=
case "$ID" in C19|C20|C21) RACE=-race;; esac
cd "$WORK/h" || exit 2
sed -i "s#=> /repo\$#=> $REPO#" go.mod
if ! go build $RACE -o "$WORK/mon" ./cmd/mon >"$WORK/build.log" 2>&1; then
  echo "CHECK ERROR: cannot build the monitors with $REPO:" >&2
  head -50 "$WORK/build.log" >&2
  exit 3
fi
rm -f "$EV/$ID.json" "$EV/replay/$ID"-*
export GORACE="exitcode=66 halt_on_error=0 history_size=4"
export GOTRACEBACK=all
"$WORK/mon" -prop "$ID" -tier "$TIER" -seed "$SEED" -repo "$REPO" -work "$WORK/w" -evidence "$EV" -harness "$WORK/h" "$@" >"$WORK/out.log" 2>"$WORK/err.log"
RC=$?
head -c 200000 "$WORK/out.log"
if [ $RC -eq 0 ]; then exit 0; fi
LOG=$EV/replay/$ID-log.txt
{ echo "# VERIF_SEED=$SEED $HERE/run.sh $ID $TIER"; head -c 400000 "$WORK/err.log"; } >"$LOG"
if [ $RC -eq 1 ] && grep -a -q "^VIOLATION property=$ID " "$WORK/out.log"; then exit 1; fi
if grep -a -q "WARNING: DATA RACE" "$WORK/err.log"; then
  grep -a -m1 -A12 "WARNING: DATA RACE" "$WORK/err.log" | LC_ALL=C tr -cd '\11\12\40-\176'
  [ -f "$EV/$ID.json" ] || "$WORK/mon" -prop "$ID" -stub -evidence "$EV" -seed "$SEED" -tier "$TIER"
  echo "VIOLATION property=$ID replay=$LOG"
  exit 1
fi
# a crash that recover() cannot stop, inside the library
if grep -a -Eq "^fatal error: (stack overflow|all goroutines are asleep|concurrent map|sync: )|^runtime: goroutine stack exceeds" "$WORK/err.log"; then
  grep -a -E -m2 "^fatal error:|^runtime: goroutine stack exceeds" "$WORK/err.log"
  [ -f "$EV/$ID.json" ] || "$WORK/mon" -prop "$ID" -stub -evidence "$EV" -seed "$SEED" -tier "$TIER"
  echo "VIOLATION property=$ID replay=$LOG"
  exit 1
fi
head -c 20000 "$WORK/err.log" | LC_ALL=C tr -cd '\11\12\40-\176' >&2
grep -a "CHECK ERROR" "$WORK/err.log" | tail -5 | LC_ALL=C tr -cd '\11\12\40-\176' >&2
[ $RC -eq 1 ] && exit 4
exit $RC
