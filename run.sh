#!/bin/sh
# ./run.sh --build | <property id> | --replay FILE
# Builds the explorer against /repo's current working tree and runs one check of it.
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT="$PWD" CARGO_NET_OFFLINE=true
: "${VERIF_TIER:=quick}" "${VERIF_SEED:=1}"
export VERIF_TIER VERIF_SEED
log=$(mktemp) || exit 3
# cargo goes by modification times; go by content
stamp=$(find /repo/src /repo/Cargo.toml /repo/Cargo.lock -type f -exec sha256sum {} + | sort | sha256sum)
if [ "$(cat mc/target/repo.stamp 2>/dev/null)" != "$stamp" ]; then
    (cd mc && cargo clean --offline --release -p markdown-fmt) >/dev/null 2>&1
fi
if ! (cd mc && cargo build --offline --release --locked) >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the explorer does not build against /repo" >&2
    exit 3
fi
rm -f "$log"
echo "$stamp" >mc/target/repo.stamp
case "$1 $2" in
"C23 " | *"/C23-"*)
    # the command line tool, and what stands between it and the kernel
    if [ "$(cat mc/target/cli.stamp 2>/dev/null)" != "$stamp" ]; then
        (cd /repo && cargo clean --offline --target-dir "$VERIF_ROOT/mc/target/cli" -p markdown-fmt) >/dev/null 2>&1
    fi
    if ! { (cd /repo && cargo build --offline --locked --features build-binary --bin markdown-fmt --target-dir "$VERIF_ROOT/mc/target/cli") &&
        gcc -O1 -shared -fPIC -o mc/target/shim.so mc/shim/shim.c -ldl; } >"$log" 2>&1; then
        cat "$log" >&2
        rm -f "$log"
        echo "the command line tool does not build" >&2
        exit 3
    fi
    rm -f "$log"
    echo "$stamp" >mc/target/cli.stamp
    ;;
esac
case "$1" in
--build) exit 0 ;;
--replay) exec ./mc/target/release/mc replay "$2" ;;
*) exec ./mc/target/release/mc check "$1" ;;
esac
