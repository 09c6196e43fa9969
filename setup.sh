#!/bin/bash
# builds the extraction driver, the extractor and the finder (offline)
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd driver && CARGO_TARGET_DIR=../build/driver cargo +nightly build --release --offline)
(cd extract && CARGO_TARGET_DIR=../build/extract cargo build --release --offline)
(cd finder && CARGO_TARGET_DIR=../build/finder cargo build --release --offline)
