# Build environment of the checks (the repository's own settings, with a target directory of ours).
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER= SQLX_OFFLINE=true
export CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-$VERIF/target}"
unset DATABASE_URL RUSTFLAGS
