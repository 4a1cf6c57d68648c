#!/bin/bash
# check.sh PROPERTY: decides one property for /repo's current working tree.
# VERIF_TIER (quick, thorough), VERIF_SEED (default 1), VERIF_SECONDS and
# VERIF_RUNS (optional bounds).
# Exit 0: held on everything explored. 1: VIOLATION line. Else: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
case $1 in
    C06 | C13) profile=stepped ;;
    *) profile=release ;;
esac
bin=$("$here/build.sh" $profile) || exit 2
args=(--tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --verif "$here")
[ -n "${VERIF_SECONDS:-}" ] && args+=(--seconds "$VERIF_SECONDS")
[ -n "${VERIF_RUNS:-}" ] && args+=(--runs "$VERIF_RUNS")
exec "$bin" check "$1" "${args[@]}"
