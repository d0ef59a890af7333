#!/bin/bash
# usage: check.sh build | check.sh <property id> [quick|thorough] | check.sh replay <file>
# Rebuilds the harness from /repo's working tree, then decides one property.
# Exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: no verdict.
root=$(cd "$(dirname "$0")" && pwd) || exit 2
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$root/harness/target PBT_ROOT=$root
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_INCREMENTAL
export RUSTC_WRAPPER= RUST_BACKTRACE=0
cd "$root/harness" || exit 2

# Cargo decides by modification times what to rebuild. Copies of the trees can carry misleading
# ones, so decide by content: when any source differs from the last build, build afresh.
sum=$({ find /repo/src "$root/harness/src" -type f -print0; printf '%s\0' /repo/Cargo.toml "$root/harness/Cargo.toml" "$root/harness/Cargo.lock"; } |
    sort -z | xargs -0 sha256sum | sha256sum)
stamp=$CARGO_TARGET_DIR/.built-from
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    rm -f "$stamp"
    cargo clean --release --offline -p seiren -p seiren-pbt >/dev/null 2>&1
fi
if ! log=$(cargo build --release --offline --locked 2>&1); then
    printf '%s\n' "$log" | tail -40 >&2
    echo "ERROR: the harness does not build against /repo" >&2
    exit 2
fi
printf '%s\n' "$sum" > "$stamp"

case ${1:-} in
build) exit 0 ;;
replay) cd "$root" && exec "$CARGO_TARGET_DIR/release/seiren-pbt" replay "$2" ;;
"") echo "usage: $0 <property>" >&2; exit 2 ;;
esac
[ -n "${2:-}" ] && export VERIF_TIER=$2
ulimit -v 20000000 # memory blow-ups end the run instead of the machine
cd "$root" && exec "$CARGO_TARGET_DIR/release/seiren-pbt" check "$1"
