#!/bin/bash
# usage: check.sh <property> quick|thorough
cd "$(dirname "$0")" || exit 3
V=$PWD
BIN=$(bash bin/build.sh) || { echo "cannot build podo with the hook" >&2; exit 4; }
ID=$1
rm -rf "$V/out/run-$ID"
rm -f "$V/out/replay/$ID"-*.json
mkdir -p "$V/out/run-$ID" "$V/evidence"
cd "$V/out/run-$ID" || exit 3
ulimit -v 28000000
PODO_VERIF_DIR=$V PODO_VERIF_CHECK=$ID PODO_VERIF_MODE=${2:-quick} PODO_VERIF_WORK="$V/out/run-$ID" "$BIN"
RC=$?
cd "$V"
rm -rf "$V/out/run-$ID"
if [ $RC = 139 ] || [ $RC = 134 ]; then
  mkdir -p out/replay
  echo "{\"property\": \"$ID\", \"what\": \"podo's code ended the process with status $RC\"}" >"out/replay/$ID-abort.json"
  echo "VIOLATION property=$ID replay=$V/out/replay/$ID-abort.json podo's code ended the process with status $RC"
  exit 1
fi
exit $RC
