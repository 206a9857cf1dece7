#!/bin/bash
# check.sh ID [quick|thorough]: build from /repo's working tree what the check needs, and run it.
# check.sh build: build everything (setup_cmd).
set -u
root=$(cd "$(dirname "$0")" && pwd)
cd "$root" || exit 2
id=${1:?usage: check.sh ID [tier]}
tier=${2:-${VERIF_TIER:-quick}}
export MC_ROOT=$root FORMAT_TESTS=false CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUST_LOG
if [ -z "${LIBCLANG_PATH:-}" ]; then
    for d in /usr/lib/llvm-14/lib /usr/lib/llvm-18/lib /usr/lib/llvm-*/lib; do
        if ls "$d"/libclang*.so* >/dev/null 2>&1; then export LIBCLANG_PATH=$d; break; fi
    done
fi

# build NAME DIR [cargo arguments]
build() {
    local name=$1 dir=$2; shift 2
    mkdir -p "$root/target"
    local log="$root/target/$name.log"
    if ! (cd "$root/$dir" && CARGO_TARGET_DIR="$root/target/$name" cargo build --offline --release "$@" >"$log" 2>&1); then
        grep -E '^error' -A12 "$log" | head -60 >&2
        echo "build $name failed, see $log" >&2
        return 1
    fi
}
std() { build std mc; }
onig() { build onig mc --features onig; }
hook() { RUSTFLAGS="--cfg jst_mc" build hook mc; }
cli() { build cli cli && gcc -O2 -shared -fPIC -o "$root/target/shim.so" cli/shim.c -ldl; }

case $id in
build) std && onig && hook && cli; exit $? ;;
C09) std || exit 2
     # a change may use the maps in a way the hook does not support: the seeds remain
     hook && export MC_BIN_hook=$root/target/hook/release/mc ;;
C10|C19) std || exit 2
     onig && export MC_BIN_onig=$root/target/onig/release/mc ;;
C15) std && cli || exit 2
     export MC_JST=$root/target/cli/release/jsonschema-transpiler MC_SHIM=$root/target/shim.so ;;
*) std || exit 2 ;;
esac
exec "$root/target/std/release/mc" check "$id" "$tier"
