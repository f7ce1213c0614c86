#!/bin/bash
# builds the MIR dumping driver (offline)
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
CARGO_TARGET_DIR="$PWD/build/driver" cargo +nightly build --offline --manifest-path driver/Cargo.toml
