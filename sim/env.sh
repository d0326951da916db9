# Toolchain settings for building the simulator (sourced).
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2022-05-20-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
SIM=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export RUSTC_WRAPPER=$SIM/rustc-wrap.sh
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL
sim_build() { (cd "$SIM" && python3 vendor.py && cargo build --target x86_64-unknown-linux-gnu "$@"); }
SIM_BIN=$SIM/target/x86_64-unknown-linux-gnu/debug/dochy_sim
