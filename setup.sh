#!/bin/bash
# builds the explorer against /repo and tests its own arithmetic
cd "$(dirname "$0")/mc" || exit 1
cargo build --offline --profile checked || exit 1
./target/checked/mc selftest
