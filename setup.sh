#!/bin/bash
# Sanity-builds the shared core offline; each check builds the crate it needs.
cd "$(dirname "$0")" && . ./env.sh && cd harness/core && CARGO_TARGET_DIR=../../target cargo build --offline --release --locked
