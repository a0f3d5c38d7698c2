# Sourced: builds the client from /repo's working tree, in /repo/target, with
# the command of the repository's own build.
client() {
    local stamp=$REPO/target/.verif-sources now
    now=$(cd "$REPO" && find program clients Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 |
        sort -z | xargs -0 sha256sum | sha256sum)
    if [ ! -x "$REPO/target/debug/spl-slashing" ] || [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
        rm -rf "$REPO"/target/debug/.fingerprint/solana-slashing-{program,cli}-*
    fi
    (cd "$REPO" && warm cargo build --workspace --features solana-slashing-program/test-sbf --offline \
        --bin spl-slashing --examples) >"$1" 2>&1 || { rm -f "$stamp"; return 1; }
    mkdir -p "$REPO/target" && printf '%s\n' "$now" > "$stamp"
}
