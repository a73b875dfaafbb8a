# Sourced by check.sh: environment, and the `build` function.
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=/root CARGO_HOME=/root/.cargo
export RUSTUP_TOOLCHAIN=stable
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL
export LC_ALL=C.UTF-8
export VERIF_DIR="$here"
export CARGO_TARGET_DIR="$here/target"
VH="$here/target/debug/vh"
mkdir -p "$here/target" "$here/evidence"

# Cargo only looks at modification times: touch the files of /repo whose
# content is not what it was at the last build.
freshen() {
    local sums="$here/target/.repo-sums"
    (cd /repo && git ls-files -z -co --exclude-standard | xargs -0 sha256sum 2>/dev/null | LC_ALL=C sort) > "$sums.new"
    if [ -f "$sums" ]; then
        (cd /repo && LC_ALL=C comm -13 "$sums" "$sums.new" | cut -c67- | tr '\n' '\0' | xargs -0 -r touch -c --)
    fi
    mv "$sums.new" "$sums"
}

# build BIN...
build() {
    (
        flock 9
        freshen
        local dir=harness
        case "$1" in vg) dir=generated ;; esac
        cd "$here/$dir" && cargo build --offline --locked $(printf -- '--bin %s ' "$@") > "$here/target/build-$1.log" 2>&1 ||
            { grep -E "^error" -A12 "$here/target/build-$1.log" | head -60; exit 1; }
    ) 9> "$here/target/.lock"
}
