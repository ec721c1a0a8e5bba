#!/bin/bash
# Builds the wasm of the named contracts (default: all) from /repo's current working tree into
# /verif/.build/wasm/<name>.wasm.  Works on a synced copy (never writes to /repo or /opt/vp).
#   bin/build-wasm.sh [contract ...]      contract = directory name in /repo
# Exit 0 when every requested wasm is up to date, 3 otherwise (an error of the check, not a verdict).
set -u
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$HERE/.build}
WS=$B/ws
OUT=$B/wasm
mkdir -p "$WS" "$OUT"
exec 9>"$B/lock"
flock 9

export HOME=/root LANG=${LANG:-C.UTF-8}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
TCD=/root/.rustup/toolchains
TC=$TCD/1.69.0-x86_64-unknown-linux-gnu/bin
export RUSTUP_TOOLCHAIN=1.70.0
export RUSTC=$TC/rustc RUSTDOC=$TC/rustdoc RUSTC_WRAPPER=
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$B/target
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET

rsync -rlpc --delete --exclude /.git --exclude target --exclude '*.wasm' \
    --exclude /multisig/Cargo.toml --exclude /multisig/Cargo.lock \
    --exclude /staking-pool/Cargo.toml --exclude /staking-pool/Cargo.lock \
    --exclude /staking-pool-factory/Cargo.toml --exclude /staking-pool-factory/Cargo.lock \
    "$REPO"/ "$WS"/ || exit 3

# Committed wasm without sources here.
for f in w-near/res/legacy_w_near.wasm; do
    mkdir -p "$WS/$(dirname $f)"
    [ -f "$REPO/$f" ] && { cmp -s "$REPO/$f" "$WS/$f" || cp "$REPO/$f" "$WS/$f"; }
done

# These three have git dev-dependencies that cannot be had offline: their manifest less those lines.
for c in multisig staking-pool staking-pool-factory; do
    mkdir -p "$WS/$c"
    if ! cat "$REPO/$c/Cargo.toml" "$REPO/$c/Cargo.lock" | cmp -s - "$WS/.$c.origin"; then
        sed -E '/^[A-Za-z0-9_-]+ *= *\{ *git *=/d' "$REPO/$c/Cargo.toml" > "$WS/$c/Cargo.toml" || exit 3
        cp "$REPO/$c/Cargo.lock" "$WS/$c/Cargo.lock" || exit 3
        cat "$REPO/$c/Cargo.toml" "$REPO/$c/Cargo.lock" > "$WS/.$c.origin"
    fi
done

declare -A NAME=( [whitelist]=whitelist [staking-pool]=staking_pool [lockup]=lockup_contract [w-near]=w_near
    [multisig2]=multisig2 [multisig]=multisig [voting]=voting_contract [staking-pool-factory]=staking_pool_factory
    [lockup-factory]=lockup_factory [multisig-factory]=multisig_factory [state-manipulation]=state_manipulation )
declare -A NEEDS=( [staking-pool-factory]=staking-pool [lockup-factory]=lockup [multisig-factory]=multisig2 )
declare -A DONE=()

build() {
    local c=$1 n=${NAME[$1]:-} lock=--locked
    [ -n "$n" ] || { echo "build-wasm: unknown contract $c" >&2; exit 3; }
    [ -n "${DONE[$c]:-}" ] && return
    [ -n "${NEEDS[$c]:-}" ] && build "${NEEDS[$c]}"
    case $c in multisig|staking-pool|staking-pool-factory) lock= ;; esac
    local from=$CARGO_TARGET_DIR/wasm32-unknown-unknown/release/$n.wasm
    if [ "$c" = state-manipulation ]; then
        local v
        for v in "state_manipulation:--all-features" "state_cleanup:--no-default-features --features clean" \
                 "state_replace:--no-default-features --features replace"; do
            (cd "$WS/$c" && RUSTC_BOOTSTRAP=1 RUSTFLAGS='-C link-arg=-s' CARGO_TARGET_DIR=$B/target-sm \
                cargo build -q --target wasm32-unknown-unknown --release --offline --locked ${v#*:}) >&2 || exit 3
            from=$B/target-sm/wasm32-unknown-unknown/release/state_manipulation.wasm
            cmp -s "$from" "$OUT/${v%%:*}.wasm" || cp "$from" "$OUT/${v%%:*}.wasm"
        done
    else
        mkdir -p "$WS/$c/res"
        (cd "$WS/$c" && RUSTFLAGS='-C link-arg=-s' cargo build -q --target wasm32-unknown-unknown --release \
            --offline $lock) >&2 || { rm -f "$OUT/$n.wasm"; echo "build-wasm: $c does not build" >&2; exit 3; }
        cmp -s "$from" "$WS/$c/res/$n.wasm" || cp "$from" "$WS/$c/res/$n.wasm"
        cmp -s "$from" "$OUT/$n.wasm" || cp "$from" "$OUT/$n.wasm"
    fi
    DONE[$c]=1
}

if [ $# -eq 0 ]; then set -- "${!NAME[@]}"; fi
for c in "$@"; do build "$c"; done
exit 0
