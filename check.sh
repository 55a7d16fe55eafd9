#!/bin/bash
# check.sh PROPERTY TIER: builds the analyser if needed and decides one property.
cd "$(dirname "$0")" || exit 1
VERIF=$(pwd)
prop=$1 tier=${2:-quick}
REPO=${HOUND_REPO:-/repo}
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
fail() { echo "$1"; echo "VIOLATION property=$prop replay=$VERIF/analyzer"; exit 1; }
bin=$VERIF/analyzer/bin/houndverif
if [ ! -x "$bin" ] || [ -n "$(find analyzer -name '*.go' -newer "$bin" -print -quit)" ]; then
  mkdir -p analyzer/bin
  tmp=$(mktemp analyzer/bin/build.XXXXXX) || fail "cannot build the analyser"
  (cd analyzer && go build -o "$VERIF/$tmp" .) || { rm -f "$VERIF/$tmp"; fail "cannot build the analyser"; }
  mv "$VERIF/$tmp" "$bin"
fi
timeout -k 5 840 "$bin" -repo "$REPO" -prop "$prop" -tier "$tier" -verif "$VERIF"
rc=$?
[ $rc -eq 0 ] && exit 0
[ $rc -eq 1 ] || fail "the analyser ended with status $rc"
exit 1
