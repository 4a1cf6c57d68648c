#!/bin/bash
# cargo.sh build|fresh release|stepped: builds the simulator beside this file
# into CARGO_TARGET_DIR and prints where it is; fresh: without anything that
# was built from the library or the simulator before.
set -eu
cd "$(dirname "$0")"
export RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
: "${CARGO_TARGET_DIR:=$PWD/target}"
export CARGO_TARGET_DIR
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_RUSTC_WRAPPER CARGO_BUILD_TARGET
profile=$2
out=$CARGO_TARGET_DIR/$profile
on=() with=()
if [ "$profile" = stepped ]; then
    host=$(rustc -vV | sed -n 's/^host: //p')
    out=$CARGO_TARGET_DIR/$host/$profile
    # the standard library as well, but that only once
    if ! cmp -s clock.sh "$CARGO_TARGET_DIR/clock.sh"; then
        cargo clean --profile stepped --target "$host" --offline >&2
        mkdir -p "$CARGO_TARGET_DIR"
        cp clock.sh "$CARGO_TARGET_DIR/clock.sh"
    fi
    on=(--target "$host")
    with=(-Zbuild-std=core,alloc,std,panic_unwind)
    export RUSTC_WRAPPER="$PWD/clock.sh"
fi
if [ "$1" = fresh ]; then
    cargo clean --profile "$profile" --offline "${on[@]}" -p justjson -p jjbase -p jjsim >&2
fi
cargo build --profile "$profile" --offline --locked "${on[@]}" "${with[@]}" >&2
echo "$out/jjsim"
