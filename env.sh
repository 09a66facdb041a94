export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="-A dangerous_implicit_autorefs" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
