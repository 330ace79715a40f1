#!/bin/bash
# replay.sh FILE: build from /repo's working tree, then execute one recorded run.
cd "$(dirname "$0")"
V=$PWD
./build.sh || { echo "ERROR of the check: build failed"; exit 2; }
export ATSIM_VERIF="$V" ATSIM_TOOLS="$V/target" ATSIM_REL="$V/target/rel"
exec "$V/target/bin/atsim" replay "$1"
