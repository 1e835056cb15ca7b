# Toolchain and flags for the harness (same toolchain as /opt/vp/build.sh).
export PATH=/root/.cargo/bin:$PATH HOME=/root
export RUSTUP_TOOLCHAIN=1.85.1-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/.work/target
# `--cfg fuzzing` makes ahash use fixed keys, so hash iteration orders are under the harness' control.
export RUSTFLAGS="--cfg fuzzing -Awarnings"
