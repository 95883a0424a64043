#!/bin/sh
# Runs repeat: the digests of their logs do not depend on the number of
# workers, the hash seed or chance.  selftest.sh [RUNS] [PROPERTY ...]
here=$(cd "$(dirname "$0")/.." && pwd)
runs=${1:-40}
[ $# -gt 0 ] && shift
scratch=$(mktemp -d)
status=0
for p in ${*:-P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17}; do
    "$here/check" $p --runs $runs --digests "$scratch/a" >/dev/null || status=1
    "$here/check" $p --runs $runs --jobs 2 --digests "$scratch/b" >/dev/null || status=1
    VSIM_HASHSEED=77 "$here/check" $p --runs $runs --digests "$scratch/c" >/dev/null || status=1
    if cmp -s "$scratch/a" "$scratch/b" && cmp -s "$scratch/a" "$scratch/c"; then
        echo "$p: $(wc -l < "$scratch/a") runs repeat"
    else
        echo "$p: runs differ"
        status=1
    fi
done
rm -r "$scratch"
exit $status
