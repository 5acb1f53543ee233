#!/bin/bash
# Builds the whole harness once (the checks rebuild what /repo's tree changes).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/out" "$here/evidence"
fresh "$here/target" "$here/harness"
(cd "$here/harness" && cargo build --release --offline --target-dir "$here/target" --bins) && "$here/probe/build.sh" "$here/target"
