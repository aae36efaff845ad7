#!/bin/bash
# builds the simulator together with the current tree of /repo
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p evidence
cd sim && cargo build --release --offline
