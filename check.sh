#!/bin/bash
# usage: check.sh <property> [--case N]      (VERIF_SEED, VERIF_TIER in the environment)
# Builds the monitors against /repo's working tree and runs the one property.
id=${1:?usage: check.sh PROPERTY [--case N]}
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export RUSTFLAGS="--cap-lints warn" CARGO_TARGET_DIR="$here/harness/target"
export MON_VERIF="$here" MON_REPO="${MON_REPO:-/repo}"
mkdir -p "$here/evidence"
log="$here/evidence/build-$id.log"
if ! (cd "$here/harness" && cargo build --release --offline) >"$log" 2>&1; then
    grep -E '^error' -A6 "$log" | head -60 >&2
    echo "the monitors do not build against /repo" >&2
    exit 3
fi
rm -f "$here/evidence/$id.json"
# the stages of these two take longer: leave room for them in 900 s
if [ "$VERIF_TIER" = thorough ] && [ -z "$MON_SOFT_S" ]; then
    case $id in C05 | C19) export MON_SOFT_S=360 ;; esac
fi
"$here/harness/target/release/mon" "$@"
code=$?
if [ "$code" != 0 ] || [ $# -gt 1 ]; then
    exit $code
fi
# further stages: sanitizers, interpreter, the build users ship
stages() {
    if [ "$VERIF_TIER" = thorough ]; then
        echo "plain 1000000000 60"
        echo "asan 1000000000 90"
        case $id in
            C05) echo "msan 1000000 60"; echo "miri 40000 120" ;;
            C19) echo "tsan 1000000000 200"; echo "miri 4000 100" ;;
        esac
    else
        case $id in
            C05) echo "asan 150 60"; echo "msan 60000 20"; echo "miri 12000 50" ;;
            C19) echo "tsan 1500 60" ;;
        esac
    fi
}
while read -r kind cases secs; do
    "$here/stage.sh" "$kind" "$id" "$cases" "$secs" </dev/null || exit $?
done < <(stages)
exit 0
