#!/bin/bash
# Every property, several seeds, at 8, 3 and 1 workers: the digest over the
# logs of all runs has to be the same.  Usage: determinism.sh [RUNS]
here=$(cd "$(dirname "$0")/.." && pwd)
release=$("$here/build.sh" release) && stepped=$("$here/build.sh" stepped) || exit 2
tmp=$(mktemp -d /tmp/jjdet.XXXXXX)
mkdir "$tmp/evidence"; cp "$here/known_findings.txt" "$tmp/"
"$release" list | while read -r p profile; do
    bin=${!profile}
    for seed in 1 2 3 4 5; do
        for w in 8 8 3 1; do
            "$bin" check "$p" --seed $seed --runs "${1:-4000}" --workers $w --verif "$tmp" >/dev/null || echo "$p: FAILED"
            grep -o 'digest_of_all_logs": "[0-9a-f]*"' "$tmp/evidence/$p.json"
        done | sort | uniq -c | awk -v p=$p -v s=$seed '{n++} END {print p, "seed", s, n==1 ? "same" : "DIFFERENT"; exit n!=1}' || echo "$p: FAILED"
    done
done
find "$tmp" -delete
