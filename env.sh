# sourced by every script of /verif
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$VERIF/target"
export RUSTFLAGS="--cap-lints=warn --cfg boostvoronoi_monitor"
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
