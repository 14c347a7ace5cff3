#!/bin/sh
# builds the extractor and the comparison harness from the committed files, offline
set -e
cd "$(dirname "$0")/.."
(cd extract && cargo build --offline --release -q)
(cd harness && CARGO_TARGET_DIR=../build/harness-target cargo build --offline -q 2>/dev/null)
