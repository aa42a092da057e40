#!/bin/bash
# Builds the harness from /repo's current working tree and runs one command of it:
#   run.sh check ID [quick|thorough]    run.sh replay FILE    run.sh build
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset CARGO_TARGET_DIR REGEN
unset http_proxy https_proxy all_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY
build() {
    (cd "$1" && cargo build --release --offline --quiet) >&2
}
crate_of() {
    case "$1" in
        X*|T*) echo mcx ;;
        W*|Y*|K*) echo mcw ;;
        *) echo mc ;;
    esac
}
case "${1:-}" in
    build)
        # A crate that does not build makes its own checks fail, and no others.
        for c in mc mcx mcw; do
            build "$c" || echo "$c does not build" >&2
        done
        ;;
    check)
        c=$(crate_of "$2")
        build "$c" || exit 2
        # The drivers say on the standard error what they ignore.
        exec 2> >(grep --line-buffered -v '^Ignoring button' >&2)
        exec "./$c/target/release/$c" check "$2" "${3:-${VERIF_TIER:-quick}}"
        ;;
    replay)
        id=$(basename "$2" | cut -d- -f1)
        c=$(crate_of "$id")
        build "$c" || exit 2
        exec "./$c/target/release/$c" replay "$2"
        ;;
    *)
        echo "usage: $0 build | check ID [quick|thorough] | replay FILE" >&2
        exit 2
        ;;
esac
