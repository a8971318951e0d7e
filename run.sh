#!/bin/bash
# usage: ./run.sh <property id>     (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p target evidence
build_harness || { echo "build failed" >&2; exit 2; }
exec ./target/debug/harness check "$1"
