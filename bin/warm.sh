# Sourced: runs a command in the environment of /opt/vp/build.sh, so that
# cargo reuses what it built.
warm() {
    env HOME=/root CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= \
        CARGO_TARGET_DIR="$REPO/target" RUST_LOG=error "$@"
}
unset BPF_OUT_DIR SBF_OUT_DIR
