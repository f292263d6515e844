#!/bin/bash
# check.sh PROP [TIER]: builds the harness against /repo's working tree and
# runs the check of one property. VERIF_SEED and VERIF_TIER are honoured.
# exit 0 held, 1 VIOLATION, 2 error of the check.
set -u
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GONOSUMCHECK=1 GOWORK=off
mkdir -p "$here/.build" "$here/evidence" "$here/replay"
race=
case $prop in
C08|C18|C19|C20|C25) race=-race ;;
esac
bin="$here/.build/vh$race"
cd "$here/harness" || exit 2
if ! go build $race -o "$bin.$$" . ; then
  echo "harness does not build against /repo" >&2
  exit 2
fi
mv -f "$bin.$$" "$bin"
# command line tools of the repository, for the checks which run them
case $prop in
C22)
  export VERIF_BIN="$here/.build/bin"
  mkdir -p "$VERIF_BIN"
  (cd /repo && GOFLAGS= go build -buildvcs=false -o "$VERIF_BIN/" ./cmd/gini ./cmd/bench ./cmd/crispd) || { echo "commands do not build" >&2; exit 2; }
  ;;
esac
cd "$here" || exit 2
"$bin" check -prop "$prop" -tier "$tier" -seed "$seed" -verif "$here"
rc=$?
case $rc in 0|1) exit $rc;; *) exit 2;; esac
