#!/bin/bash
# run.sh check C05 [harness...] | run.sh replay FILE | run.sh setup
cd "$(dirname "$0")" || exit 0
export VERIF_DIR="${VERIF_DIR:-$PWD}" REPO_DIR="${REPO_DIR:-/repo}"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
need=0
[ -x bin/vsym ] || need=1
[ $need = 1 ] || [ -z "$(find engine -newer bin/vsym -name '*.go' -print -quit)" ] || need=1
if [ $need = 1 ] || [ "$1" = setup ]; then
  mkdir -p bin build evidence
  t="bin/vsym.$$"
  if ! (cd engine && go build -o "../$t" .); then
    echo "UNDECIDED: the engine does not build"; rm -f "$PWD/$t"; exit 2
  fi
  mv "$t" bin/vsym
fi
[ "$1" = setup ] && exit 0
bin/vsym "$@"
rc=$?
if [ "$1" = check ] && [ $rc -gt 1 ]; then
  echo "UNDECIDED property=$2 the engine ended with status $rc"
  rc=0
fi
exit $rc
