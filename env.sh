# Build settings shared by check.sh and setup.sh (offline, one configuration for every check).
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
unset CARGO_RESOLVER_LOCKFILE_PATH
export VERIF_DIR=$PWD
export CARGO_TARGET_DIR=$PWD/target CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Awarnings"
mkdir -p "$CARGO_TARGET_DIR"
