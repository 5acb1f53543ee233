export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:/usr/local/bin:${PATH:-/usr/sbin:/usr/bin:/sbin:/bin}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
# Cargo decides what to rebuild by modification times; sources that were copied or patched with
# old times must be rebuilt as well, so a change of content drops what was built from it.
fresh() {
    local now
    now=$(cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
    if [ -d "$1/release" ] && [ "$(cat "$1/repo.sha256" 2>/dev/null)" != "$now" ]; then
        (cd "$2" && cargo clean --release --offline --target-dir "$1" -p justjson) >/dev/null 2>&1
    fi
    mkdir -p "$1"
    echo "$now" >"$1/repo.sha256"
}
