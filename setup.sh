#!/bin/bash
# builds the extractor and the harness' dependencies into .build (offline)
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence
(cd extract && CARGO_TARGET_DIR=../.build/extract cargo build --offline) || exit 1
./hb.sh || echo "harness does not build on this tree; checks say so"
exit 0
