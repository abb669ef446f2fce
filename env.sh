export VERIF_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
# the tree under test lies beside this one: /verif -> /repo
export REPO_ROOT="$(cd "$VERIF_ROOT/../repo" && pwd)"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$VERIF_ROOT/target
export NO_COLOR=1
BIN=$VERIF_ROOT/target/debug/vharness
# Rebuilds the harness against /repo's current working tree. Freshness is decided on file
# contents (tools/stale.py), not on modification times alone.
build_harness() {
    mkdir -p "$CARGO_TARGET_DIR"
    for c in $(python3 $VERIF_ROOT/tools/stale.py check); do
        cargo clean --manifest-path $VERIF_ROOT/harness/Cargo.toml --offline -p "$c" >/dev/null 2>&1
    done
    if ! cargo build --manifest-path $VERIF_ROOT/harness/Cargo.toml --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1; then
        tail -60 "$CARGO_TARGET_DIR/build.log"
        echo "BUILD-ERROR: the harness does not build against /repo"
        return 1
    fi
    python3 $VERIF_ROOT/tools/stale.py record
}
export SSL_CERT_FILE=$VERIF_ROOT/tools/one_root.pem # data loading reads the root certificates: one is enough
unset SSL_CERT_DIR
