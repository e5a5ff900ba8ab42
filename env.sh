# Build environment of the checks: the pinned compiler, offline, own target directory.
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0
PINNED=/root/.rustup/toolchains/nightly-2023-02-17-x86_64-unknown-linux-gnu/bin
export RUSTC=$PINNED/rustc RUSTDOC=$PINNED/rustdoc
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUST_BACKTRACE CARGO_PROFILE_DEV_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
# the guarded hooks of /repo (see MANIFEST.json)
export RUSTFLAGS="--cfg verif_hooks"
export CARGO_TARGET_DIR=/verif/target
