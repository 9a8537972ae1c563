#!/bin/bash
# usage: run.sh <ID> [--tier quick|thorough] [--replay FILE] ...
# Builds the model checker against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${MC_TARGET_DIR:-$PWD/mc/target}"
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
build() {
    RUSTFLAGS="$1" cargo build --release --offline --quiet --manifest-path mc/Cargo.toml >"$log" 2>&1
}
# If the hooks don't compile on this tree, fall back to what's publicly observable.
if ! build "--cfg mollusc_verif -Awarnings"; then
    cp "$log" "$log.hooked"
    if ! build "-Awarnings"; then
        cat "$log.hooked" "$log"
        rm -f "$log.hooked"
        echo "the model checker doesn't build against /repo"
        exit 2
    fi
    rm -f "$log.hooked"
fi
[ "$1" = build ] && exit 0
mkdir -p evidence
exec_args=("$@")
[ -n "$VERIF_TIER" ] && [[ " $* " != *" --tier "* ]] && exec_args+=(--tier "$VERIF_TIER")
"$CARGO_TARGET_DIR/release/mc" "${exec_args[@]}"
