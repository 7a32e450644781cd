# Sourced with the working directory at /verif's root.
export VERIF_DIR="$PWD"
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/sim/target"
export RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p evidence replays sim/target
