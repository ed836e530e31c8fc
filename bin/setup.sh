#!/bin/bash
# build the executor, the LLVM IR of the standard library, and the dependencies of /repo's crates
set -e
cd "$(dirname "$0")/.."
V=$PWD
mkdir -p build/std build/gen build/out evidence
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR=$PWD/build/engine cargo build --release --offline --manifest-path engine/Cargo.toml
# std's IR is embedded in its rlibs
if [ ! -e build/std/core-0.ll ]; then
    sys=$(RUSTUP_TOOLCHAIN=1.70.0 rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/lib
    t=$(mktemp -d)
    for c in core alloc std hashbrown memchr std_detect; do
        mkdir $t/$c
        (cd $t/$c && ar x $sys/lib$c-*.rlib
         i=0
         for o in *.o; do
             if objcopy --dump-section .llvmbc=$i.bc $o out.tmp 2>/dev/null && [ -s $i.bc ]; then
                 llvm-dis-18 $i.bc -o $V/build/std/$c-$i.ll && i=$((i+1))
             fi
         done)
    done
    rm -r $t
fi
# dependencies (with their IR); the crates under test are rebuilt by every check
echo > build/gen/empty.rs
build/engine/release/rsym --selftest 300 1
. bin/env.sh
python3 bin/ws.py
cd build/ws
MANGO_VERIF_HARNESS=$V/build/gen/empty.rs cargo rustc -p mango-v4 --lib --crate-type cdylib --no-default-features --features no-entrypoint,enable-gpl

for c in cm-harness mt-harness; do
    MANGO_VERIF_HARNESS=$V/build/gen/empty.rs cargo rustc -p $c --lib --crate-type cdylib
done
