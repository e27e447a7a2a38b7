# Sourced by every check: offline, pinned toolchain, build output inside /verif (git-ignored).
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="${UCH_TARGET_DIR:-/verif/target}"
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS
