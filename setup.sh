#!/bin/bash
# Builds the harness against /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_harness
