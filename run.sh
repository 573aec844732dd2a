#!/bin/bash
# run.sh ID [unit-filter]     build the check from /repo's working tree and run it
# run.sh replay FILE          replay a recorded violation
# run.sh build                build every check
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_RUSTFLAGS
export VERIF_DIR="$here"
cd "$here/mc" || exit 3
feat() {
    case "$1" in
        r01|r02|r04|r05|r06) echo wasm,compression ;;
        r07) echo compression ;;
        w01) echo wasm ;;
        b04) echo rewrite ;;
        b05) echo cli ;;
        *) echo "" ;;
    esac
}
build() {
    local log
    local more=
    [ "$1" = b05 ] && more="--bin rewritecli"
    log=$(cargo build --release --offline --bin "$1" $more --features "$(feat "$1")" 2>&1) || { echo "$log"; echo "BUILD FAILED"; exit 2; }
}
case "$1" in
    setup)
        for f in src/bin/*.rs; do build "$(basename "$f" .rs)"; done; echo "setup ok" ;;
    build)
        for f in src/bin/*.rs; do build "$(basename "$f" .rs)"; done ;;
    replay)
        id=$(sed -n 's/^{"property":"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1 | tr A-Z a-z)
        build "$id"
        exec "target/release/$id" replay "$2" ;;
    *)
        id=$(echo "$1" | tr A-Z a-z); shift
        build "$id"
        exec "target/release/$id" "$@" ;;
esac
