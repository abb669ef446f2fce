#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_harness || exit 2
"$BIN" list
