# toolchain and paths shared by every command here
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="${VERIF_TARGET:-$VERIF_DIR/target}"
