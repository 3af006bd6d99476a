#!/bin/bash
# check.sh <ID>: decides one property for the tree in /repo (VERIF_REPO overrides).
cd "$(dirname "$0")" || exit 1
. ./env.sh
export VERIF_DIR="$PWD"
./setup.sh >/dev/null || { echo "VIOLATION property=$1 replay=checker-does-not-build"; exit 1; }
timeout -k 5 870 ./bin/gtv check "$1"
rc=$?
if [ $rc -gt 1 ]; then
  echo "the analysis ended with status $rc before reaching a verdict"
  echo "VIOLATION property=$1 replay=evidence/$1.json"
  rc=1
fi
exit $rc
