#!/bin/bash
# usage: stage.sh KIND PROPERTY CASES SECONDS
# Runs the monitors of PROPERTY under a sanitizer (asan, tsan), under the interpreter (miri) or as
# built for users, without overflow checks (plain), and adds what was observed to the evidence.
# A report of the sanitizer or the monitor is a violation; a stage that cannot be built or started
# here is only noted.
kind=$1 id=$2 cases=$3 secs=$4
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" HOME=${HOME:-/root}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export MON_VERIF="$here" MON_REPO="${MON_REPO:-/repo}"
export MON_CASES=$cases MON_SOFT_S=$secs
ev="$here/evidence" out="$here/evidence/stage-$id-$kind.log"
export MON_STAGE="$ev/stage-$id-$kind.json"
rm -f "$MON_STAGE" "$out"
: >"$out"
mon="$here/harness/target/release/mon"
t=x86_64-unknown-linux-gnu

note() { # text
    echo "$id: stage $kind: $1"
    printf '{"stage": "%s", "note": "%s"}\n' "$kind" "$1" >"$MON_STAGE"
    "$mon" --add-stage "$id" "$MON_STAGE"
    exit 0
}
violation() { # text
    mkdir -p "$ev/replay"
    f="$ev/replay/$id-$kind.txt"
    { echo "property $id: $1"
      echo "replay: cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} ./stage.sh $kind $id $cases $secs"
      head -c 60000 "$out"; } >"$f"
    echo "$id: stage $kind: $1"
    grep -m1 -E 'error: Undefined|error: .*Data race|ERROR: Addr|WARNING: Thread' "$out"
    echo "VIOLATION property=$id replay=$f"
    exit 1
}

cd "$here/harness" || exit 3
case $kind in
asan)
    export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$here/harness/target/asan"
    export RUSTFLAGS="--cap-lints warn -Zsanitizer=address"
    timeout 500 cargo build --release --offline --target $t >"$out" 2>&1 || note "not available: the build failed"
    export ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:exitcode=67:allocator_may_return_null=1:abort_on_error=0"
    bin="$CARGO_TARGET_DIR/$t/release/mon" ;;
msan)
    export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$here/harness/target/msan"
    export RUSTFLAGS="--cap-lints warn -Zsanitizer=memory --cfg mon_msan -Zsanitizer-memory-track-origins"
    timeout 500 cargo build --release --offline -Zbuild-std --target $t >"$out" 2>&1 || note "not available: the build failed"
    export MSAN_OPTIONS="halt_on_error=1:exitcode=68"
    : >"$out"
    for k in 0 1 2 3; do
        "$mon" --make-corpus /dev/stdout "$cases" $k 2>/dev/null | timeout $((secs + 100)) "$CARGO_TARGET_DIR/$t/release/mon" --run-corpus - 0 1 "$secs" >"$out.$k" 2>&1 &
    done
    wait
    cat "$out".[0-9] >>"$out"
    rm -f "$out".[0-9]
    grep -q 'WARNING: MemorySanitizer' "$out" && grep -q 'mp4ameta' "$out" && violation "use of an uninitialised value"
    res=$(grep '^{"inputs"' "$out" | paste -sd,)
    [ -n "$res" ] || note "not available: no result"
    printf '{"stage": "msan", "processes": [%s]}\n' "$res" >"$MON_STAGE"
    "$mon" --add-stage "$id" "$MON_STAGE"
    echo "$id: stage msan: $(grep -c '^{"inputs"' "$out") processes"
    exit 0 ;;
tsan)
    export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$here/harness/target/tsan"
    export RUSTFLAGS="--cap-lints warn -Zsanitizer=thread"
    timeout 500 cargo build --release --offline -Zbuild-std --target $t >"$out" 2>&1 || note "not available: the build failed"
    export TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0"
    bin="$CARGO_TARGET_DIR/$t/release/mon" ;;
plain)
    export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$here/harness/target"
    export RUSTFLAGS="--cap-lints warn"
    timeout 500 cargo build --profile plain --offline >"$out" 2>&1 || note "not available: the build failed"
    bin="$CARGO_TARGET_DIR/plain/mon" ;;
miri)
    export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$here/harness/target/miri"
    export RUSTFLAGS="--cap-lints warn" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"
    n=7
    corpus=$(mktemp -p /dev/shm mon-corpus.XXXXXX 2>/dev/null || mktemp) || note "no scratch file"
    trap 'rm -f "$corpus"' EXIT
    "$mon" --make-corpus "$corpus" "$cases" || note "no inputs"
    # the first run builds
    timeout 500 cargo miri run --offline -q -- --run-corpus /dev/null 0 1 >"$out" 2>&1 || note "not available: the interpreter does not start"
    : >"$out"
    for k in $(seq 0 $((n - 1))); do
        timeout $((secs + 200)) cargo miri run --offline -q -- --run-corpus "$corpus" "$k" "$n" "$secs" >"$out.$k" 2>&1 &
    done
    wait
    cat "$out".[0-9] >>"$out"
    rm -f "$out".[0-9]
    grep -qE 'Undefined Behavior|Data race detected' "$out" && violation "undefined behaviour reported by the interpreter"
    grep -qE '^input [0-9]+: |panicked at' "$out" && violation "failure under the interpreter"
    res=$(grep '^{"inputs"' "$out" | paste -sd,)
    [ -n "$res" ] || note "not available: the interpreter gave no result"
    printf '{"stage": "miri", "processes": [%s]}\n' "$res" >"$MON_STAGE"
    "$mon" --add-stage "$id" "$MON_STAGE"
    echo "$id: stage miri: $(grep -c '^{"inputs"' "$out") processes"
    exit 0 ;;
*) exit 2 ;;
esac
timeout $((secs + 300)) "$bin" --worker "$id" >>"$out" 2>&1
code=$?
grep -q 'ERROR: AddressSanitizer' "$out" && ! grep -qE 'AddressSanitizer: (stack-overflow|.*out of memory|.*allocation-size)' "$out" && violation "AddressSanitizer report"
grep -q 'WARNING: ThreadSanitizer' "$out" && violation "ThreadSanitizer report"
if [ $code = 1 ] && grep -q "^VIOLATION property=$id " "$out"; then
    violation "$(grep -m1 "^$id case " "$out" | head -c 400)"
fi
[ $code = 0 ] || note "not completed (exit code $code)"
"$mon" --add-stage "$id" "$MON_STAGE"
echo "$id: stage $kind: $(tail -1 "$out")"
exit 0
