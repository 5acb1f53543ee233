#!/bin/bash
# ./check.sh <property> [--replay FILE | --count]
# Rebuilds the harness against /repo's working tree and runs one check.
# Exit 0: held; 1: VIOLATION printed; 2: the check itself could not run.
id=$1; shift
bin=$(echo "$id" | tr A-Z a-z)
here=$(cd "$(dirname "$0")" && pwd)
export JJMC_ROOT=$here
. "$here/env.sh"
log=$here/out/build-$id.log
mkdir -p "$here/out" "$here/evidence"
fresh "$here/target" "$here/harness"
if ! (cd "$here/harness" && cargo build --release --offline --target-dir "$here/target" --bin "$bin") >"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "$id: the harness does not build against /repo" >&2
    exit 2
fi
# C26 compares builds of the library with different features.
if [ "$id" = C26 ] && ! "$here/probe/build.sh" "$here/target" >>"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "C26: the probe does not build against /repo" >&2
    exit 2
fi
exec "$here/target/release/$bin" "$@"
