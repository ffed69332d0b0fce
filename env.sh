# build environment of the harness (offline, pinned toolchain)
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export RUSTFLAGS="-Awarnings --cfg zkp_mc"
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL
