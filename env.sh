# Sourced by check.sh and setup.sh: the toolchain, and a stamp of /repo's sources by content.
: "${root:=/verif}"
export HOME=/root
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$root/harness/target"
export VERIF_ROOT="$root"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET

# Sanitizer builds: nightly, with the standard library instrumented too.
SANITIZERS="address thread memory"
SAN_TARGET=x86_64-unknown-linux-gnu
sanitized() {
    local kind=$1 flags="-Zub-checks=yes" bins="--bin sanitized --bin c22 --bin c23 --bin c26"
    # crossbeam's fences are unknown to the thread sanitizer; its own switch makes them visible
    [ "$kind" = thread ] && flags="$flags --cfg crossbeam_sanitize_thread" bins="--bin sanitized"
    RUSTFLAGS="-Zsanitizer=$kind $flags" RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu \
        cargo build -Zbuild-std --manifest-path "$root/harness/Cargo.toml" --offline --locked --release \
        $bins --target "$SAN_TARGET" --target-dir "$CARGO_TARGET_DIR/san-$kind"
}

# The interpreter of undefined behaviour; `--control none` only builds.
interpreted() {
    RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu MIRIFLAGS="-Zmiri-disable-isolation" \
        cargo miri run -q --manifest-path "$root/harness/Cargo.toml" --offline --locked \
        --bin sanitized --target-dir "$CARGO_TARGET_DIR/interpreter" -- --control none
}

# cargo decides by modification time whether a path dependency changed; decide by content instead.
stamp() {
    local now old f="$CARGO_TARGET_DIR/repo.stamp"
    now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name '*.toml' \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum) || return 1
    mkdir -p "$CARGO_TARGET_DIR"
    old=$(cat "$f" 2>/dev/null)
    if [ "$now" != "$old" ]; then
        if [ -d "$CARGO_TARGET_DIR/release" ]; then
            cargo clean --manifest-path "$root/harness/Cargo.toml" --offline --release \
                -p ark-inner-products -p ark-dh-commitments -p ark-ip-proofs -p ark-sipp -p ripp-mon >/dev/null 2>&1
            cargo clean --manifest-path "$root/serial/Cargo.toml" --offline --release \
                -p ark-inner-products -p ark-dh-commitments -p ark-ip-proofs -p ark-sipp -p serial >/dev/null 2>&1
            cargo clean --manifest-path "$root/serial-ip/Cargo.toml" --offline --release \
                -p ark-inner-products -p serial-ip >/dev/null 2>&1
        fi
        local k
        for k in $SANITIZERS; do
            [ -d "$CARGO_TARGET_DIR/san-$k" ] && RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu cargo clean --manifest-path "$root/harness/Cargo.toml" --offline --release \
                --target "$SAN_TARGET" --target-dir "$CARGO_TARGET_DIR/san-$k" \
                -p ark-inner-products -p ark-dh-commitments -p ark-ip-proofs -p ark-sipp -p ripp-mon >/dev/null 2>&1
        done
        [ -d "$CARGO_TARGET_DIR/interpreter/miri" ] && RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu cargo clean --manifest-path "$root/harness/Cargo.toml" --offline \
            --target "$SAN_TARGET" --target-dir "$CARGO_TARGET_DIR/interpreter/miri" \
            -p ark-inner-products -p ark-dh-commitments -p ark-ip-proofs -p ark-sipp -p ripp-mon >/dev/null 2>&1
        echo "$now" >"$f"
    fi
    return 0
}

# Builds what the monitor of one property needs (all of them without argument).
build() {
    local what=--bins
    [ -n "$1" ] && what="--bin $1"
    cargo build --manifest-path "$root/harness/Cargo.toml" --offline --locked --release $what || return 1
    case "$1" in
    "" | c24)
        cargo build --manifest-path "$root/serial/Cargo.toml" --offline --locked --release || return 1
        cargo build --manifest-path "$root/serial-ip/Cargo.toml" --offline --locked --release || return 1
        ;;
    esac
    case "$1" in
    "" | c27)
        # separate target directories, so at once
        local k ps=
        for k in $SANITIZERS; do
            sanitized "$k" &
            ps="$ps $!"
        done
        interpreted &
        ps="$ps $!"
        for k in $ps; do
            wait "$k" || return 1
        done
        ;;
    esac
}
