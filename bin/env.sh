# Sourced by the other scripts.
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.86.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
REPO=/repo
export VERIF_ROOT=$VERIF
unset VERIF_LOGS RUSTFLAGS CARGO_TARGET_DIR

# Cargo decides what to rebuild by modification times, which a checkout, a
# patch or a copy need not advance.  So: remember a hash of the sources, and
# drop what cargo knows about the two packages of /repo when it differs.
fresh() { # fresh <target dir> <profile dir> <package>...
    local target=$1 profile=$2; shift 2
    local stamp=$target/$profile/.repo-sources
    local now
    now=$(cd "$REPO" && find program clients Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 |
        sort -z | xargs -0 sha256sum | sha256sum)
    if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$now" ]; then
        for p in "$@"; do
            rm -rf "$target/$profile/.fingerprint/$p"-*
        done
    fi
    mkdir -p "$target/$profile"
    STAMP=$stamp NOW=$now
}
built() { printf '%s\n' "$NOW" > "$STAMP"; }
