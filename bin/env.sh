# sourced: fixed toolchain, offline, one shared target directory, LLVM IR for every crate
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_TARGET_DIR=${MANGO_TARGET:-/verif/build/target} CARGO_INCREMENTAL=0
unset RUST_BACKTRACE RUST_LOG
export RUSTFLAGS="--emit=llvm-ir -C codegen-units=1 -C no-vectorize-loops -C no-vectorize-slp --cfg mango_verif -A warnings"
