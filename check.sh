#!/bin/bash
# check.sh <property> [quick|thorough]        run a check
# check.sh <property> replay <file>           re-run one recorded case
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: error of the check.
set -u
cd "$(dirname "$0")"
export HX_VERIF="$PWD"
. ./env.sh
ID=$1; MODE=${2:-quick}
BIN=hx
case $ID in C08) BIN=hx-llvm;; C24) BIN=hx-cli;; esac
build "$BIN" || { echo "check error: the harness does not build against the current tree" >&2; exit 3; }
[ -x "./pre_$ID.sh" ] && { "./pre_$ID.sh" || exit 3; }
ulimit -v 26000000
ulimit -c 0
if [ "$MODE" = replay ]; then
  exec "$TARGET/debug/$BIN" "$ID" --replay "$3"
fi
exec "$TARGET/debug/$BIN" "$ID" --tier "$MODE" -v
