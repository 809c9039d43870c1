export RUSTUP_TOOLCHAIN=1.98.1 CARGO_NET_OFFLINE=true HOME=/root RUSTC_WRAPPER= TERM=dumb CARGO_TERM_COLOR=never
