#!/bin/bash
# builds the extractor and the harness (every check also builds them itself when they are missing)
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
mkdir -p build
(cd extract && CARGO_TARGET_DIR=../build/xtgt cargo +nightly build --offline) || exit 1
verus --version || exit 1
