#!/bin/bash
# usage: run.sh <property id> | run.sh --build
# Builds the harness against /repo's working tree and runs one check.
# Exit 0: held. Exit 1 + VIOLATION line: broken. Anything else: error of the check.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= LIBCLANG_PATH=/usr/lib/llvm-18/lib
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
cd "$here/harness" || exit 2
log=$(mktemp)
trap 'rm -f "$log"' EXIT
(
    # one build at a time
    mkdir -p target && exec 9>target/.vh-lock && flock 9
    # Do not trust timestamps: what is built is decided by the content of /repo.
    sum=$( (cd /repo && find Cargo.toml src python/src python/python -name '*.pyc' -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
    if [ "$(cat target/.vh-src 2>/dev/null)" != "$sum" ]; then
        rm -f target/.vh-src
        cargo clean --offline -p async-tiff -p py-async-tiff >/dev/null 2>&1
    fi
    if [ "$1" = C25 ]; then
        # the same harness, with the Python extension module linked in
        cargo build --offline --locked --features py --bin vhpy >"$log" 2>&1 || exit 2
    else
        cargo build --offline --locked --bin vh >"$log" 2>&1 || exit 2
    fi
    echo "$sum" >target/.vh-src
    # setup: get the other one built too (its own check reports if it cannot be)
    [ "$1" != --build ] || cargo build --offline --locked --features py --bin vhpy >/dev/null 2>&1 || true
) || { cat "$log" >&2; echo "error: the harness does not build against /repo" >&2; exit 2; }
[ "$1" = --build ] && exit 0
export VERIF_SEED=${VERIF_SEED:-1}
vh=./target/debug/vh
[ "$1" = C25 ] && vh=./target/debug/vhpy
if [ "${VERIF_TIER:-quick}" != thorough ] || [ "$1" = C21 ] || [ "$1" = C25 ]; then
    export VH_MAX_S=${VH_MAX_S:-500}
    exec $vh run "$1"
fi
# thorough: many more generated cases, then coverage-guided search over the same choices
VH_MAX_S=${VH_MAX_S:-450} ./target/debug/vh run "$1" || exit
bash "$here/fuzz/fuzz.sh" "$1" "${VH_FUZZ_S:-240}"
