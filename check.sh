#!/bin/bash
# check.sh PROP: build from /repo's working tree, then search.
cd "$(dirname "$0")"
V=$PWD
./build.sh || { echo "ERROR of the check: build failed"; exit 2; }
export ATSIM_VERIF="$V" ATSIM_TOOLS="$V/target" ATSIM_REL="$V/target/rel"
exec "$V/target/bin/atsim" check "$1"
