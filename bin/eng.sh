#!/bin/bash
cd /verif; CARGO_TARGET_DIR=$PWD/build/engine cargo build --release --offline --manifest-path engine/Cargo.toml 2>&1 | grep -E "^error|Finished" -A5
