#!/bin/bash
# ./check.sh build            build the harness against /repo's working tree
# ./check.sh ID [TIER]        run the check of one property (tier: quick, thorough)
# ./check.sh replay FILE      rerun the case of a replay file
# Exit 0: held, 1: violated (VIOLATION line), 2: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR
target=$here/harness/target
mkdir -p "$target" "$here/evidence" "$here/replays"

# Cargo decides by modification time whether to rebuild /repo; decide by content instead.
hash_repo() {
    (cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum; cat /repo/Cargo.toml) | sha256sum
}

build() {
    (
        flock 9
        now=$(hash_repo)
        if [ ! -x "$target/release/dbus-pbt" ] || [ "$(cat "$target/.repo-hash" 2>/dev/null)" != "$now" ]; then
            rm -f "$target/.repo-hash" "$target/cov/release/dbus-pbt"
            (cd "$here/harness" && cargo clean -q --release --offline -p dbus-message-parser -p dbus-pbt >/dev/null 2>&1)
            (cd "$here/harness" && CARGO_TARGET_DIR=$target/cov cargo clean -q --release --offline -p dbus-message-parser -p dbus-pbt >/dev/null 2>&1)
        fi
        # The instrumented build serves the coverage-guided search; without it the checks do the rest.
        if ! build_guided >"$target/build-cov.log" 2>&1; then
            rm -f "$target/cov/release/dbus-pbt"
        fi &
        (cd "$here/harness" && cargo build --release --offline --locked -q) >"$target/build.log" 2>&1 || {
            wait
            cat "$target/build.log"
            echo "build failed"
            exit 2
        }
        wait
        echo "$now" >"$target/.repo-hash"
    ) 9>"$target/.build-lock"
}

build_guided() {
    cd "$here/harness" && RUSTC_WRAPPER=$here/harness/cov-rustc.sh CARGO_TARGET_DIR=$target/cov \
        cargo build --release --offline --locked -q --config profile.release.package.dbus-message-parser.opt-level=1
}

case "${1:-}" in
    build)
        build || exit 2
        ;;
    replay)
        build || exit 2
        exec "$target/release/dbus-pbt" replay "$2"
        ;;
    C[0-9][0-9])
        build || exit 2
        tier=${2:-${VERIF_TIER:-quick}}
        "$target/release/dbus-pbt" run "$1" "$tier"
        code=$?
        if [ $code -eq 0 ] && [ -f "$here/KNOWN_FINDINGS.txt" ]; then
            grep "^KNOWN-FINDING: property=$1 " "$here/KNOWN_FINDINGS.txt"
        fi
        exit $code
        ;;
    *)
        sed -n 2,6p "$0"
        exit 2
        ;;
esac
exit 0
