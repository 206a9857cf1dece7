#!/bin/bash
# replay.sh FILE: run the state of a violation again, against /repo's working tree.
set -u
root=$(cd "$(dirname "$0")" && pwd)
file=$(readlink -f "${1:?usage: replay.sh FILE}")
"$root/check.sh" build || exit 2
export MC_ROOT=$root MC_BIN_hook=$root/target/hook/release/mc MC_BIN_onig=$root/target/onig/release/mc
export MC_JST=$root/target/cli/release/jsonschema-transpiler MC_SHIM=$root/target/shim.so
exec "$root/target/std/release/mc" replay "$file"
