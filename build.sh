#!/bin/bash
# build.sh [release|stepped]...: builds the simulator with /repo's current
# working tree, as it is or with a simulated clock in every basic block of the
# library (both, if none is named); prints the path of the last.
# What was built from other sources (by content, not by date) is dropped.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$here/sim/target"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/build.lock"
flock 9
hash=$({
    find /repo/src /repo/.crate-docs.md /repo/README.md /repo/Cargo.toml "$here/sim/src" "$here/sim/base" "$here"/sim/Cargo.* "$here"/sim/*.sh -type f -print0 2>/dev/null |
        sort -z | xargs -0 sha256sum
    rustc --version
} | sha256sum | cut -d' ' -f1)
for profile in "${@:-release stepped}"; do
    for profile in $profile; do
        stamp=$CARGO_TARGET_DIR/built-from-$profile
        bin=$(sed -n 2p "$stamp" 2>/dev/null)
        if [ "$(sed -n 1p "$stamp" 2>/dev/null)" != "$hash" ] || [ ! -x "$bin" ]; then
            : >"$stamp"
            log=$CARGO_TARGET_DIR/build-$profile.log
            if ! bin=$("$here/sim/cargo.sh" fresh "$profile" 2>"$log"); then
                cat "$log" >&2
                echo "build.sh: the simulator does not build" >&2
                exit 2
            fi
            printf '%s\n' "$hash" "$bin" >"$stamp"
        fi
    done
done
echo "$bin"
