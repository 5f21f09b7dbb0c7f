#!/bin/bash
# Builds the harness once, so that later checks only rebuild what changed.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence work
cd harness && CARGO_TARGET_DIR=/verif/target cargo build --offline --quiet
