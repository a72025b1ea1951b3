#!/bin/bash
# Builds the whole framework once, offline.
set -eu
cd "$(dirname "$0")"
. ./env.sh
for b in hx hx-llvm hx-cli; do
  [ -d harness/$b ] && build $b
done
exit 0
