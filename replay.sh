#!/bin/bash
# replay.sh FILE: runs a replay file against /repo's current working tree.
# Exit 1 and a VIOLATION line if it fails again, 0 if it does not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
case $(sed -n 's/^property //p' "$1" | head -1) in
    C06 | C13) profile=stepped ;;
    *) profile=release ;;
esac
bin=$("$here/build.sh" $profile) || exit 2
exec "$bin" replay "$1" --verif "$here"
