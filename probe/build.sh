#!/bin/bash
# Builds the probe once per feature set, against /repo's working tree. $1: target directory.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/../env.sh"
pids=()
for set in none alloc std heapless alloc,heapless std,heapless; do
    (
        dir=$1/probe-${set/,/-}
        fresh "$dir" "$here"
        feats=$set; [ "$set" = none ] && feats=
        cd "$here" && cargo build --release --offline --target-dir "$dir" --no-default-features --features "$feats"
    ) &
    pids+=($!)
done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
exit $rc
