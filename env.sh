export VC=${VERIF_CACHE:-/verif/.cache}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0
export TRIPLE=x86_64-unknown-linux-gnu
export RUSTFLAGS="--emit=llvm-bc -C no-vectorize-loops -C no-vectorize-slp"
export LLVM=$(rustc --print sysroot)/lib/rustlib/$TRIPLE/bin
