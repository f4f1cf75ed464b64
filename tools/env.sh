# Toolchain of the pinned repository, offline.
export RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
