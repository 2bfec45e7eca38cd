#!/bin/bash
# check.sh ID [quick|thorough]   decide one property on /repo's current working tree
# check.sh --replay FILE         run the single case of a replay file again
# Exit: 0 held on everything explored, 1 violation (VIOLATION line), 2 no verdict (does not build, nothing observed).
set -u
V="$(cd "$(dirname "$0")" && pwd)"
H="$V/harness"
T="$H/target"
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0 CARGO_TERM_COLOR=never
export VMON_EVIDENCE="$V/evidence"
export VERIF_SEED="${VERIF_SEED:-1}"
unset VMON_SCALE VMON_ONLY VMON_CAP_S VMON_EXTRA VMON_NOLIMIT VMON_THREADS RUSTFLAGS MIRIFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p "$V/evidence"

build() { # build LOG ARGS...: the harness and the library in it, from the current tree
    local log="$1"
    shift
    (cd "$H" && cargo "$@") >"$log" 2>&1
}

MIRIFLAGS_COMMON="-Zmiri-disable-isolation -Zmiri-deterministic-floats -Zmiri-ignore-leaks"

if [ "${1:-}" = "--replay" ]; then
    f="${2:?file}"
    get() { sed -n "s/^$1 //p" "$f" | head -1; }
    if grep -q '^mode miri' "$f"; then
        export VERIF_SEED="$(get seed)"
        cd "$H" && MIRIFLAGS="$MIRIFLAGS_COMMON $(get miriflags)" \
            cargo +nightly miri run -q --offline --target-dir "$T/miri" -- seq "$(get property)" 1 "$(get workload)" "$(get index)"
        exit $?
    fi
    build "$V/evidence/.build.log" build --release --offline || { tail -30 "$V/evidence/.build.log"; exit 2; }
    exec "$T/release/vmon" replay "$f"
fi

ID="${1:?property id}"
TIER="${2:-quick}"
export VERIF_TIER="$TIER"
W="$V/evidence/.work.$ID.$$"
mkdir -p "$W"
trap 'rm -rf "$W"' EXIT

if ! build "$W/build.log" build --release --offline; then
    tail -40 "$W/build.log"
    echo "INCONCLUSIVE the harness does not build against this tree"
    exit 2
fi

EXTRA=""
add_extra() { EXTRA="${EXTRA:+$EXTRA, }$1"; }

# fail MODE LOG WORKLOAD INDEX MIRIFLAGS: report what an interpreter or sanitizer saw
fail() {
    "$T/release/vmon" fail "$ID" "$1" "$2" "${3:-}" "${4:-0}" "${5:-}"
    exit 1
}

# miri NAME FLAGS SECONDS COUNT WORKLOADS FIRST: in the background, result in $W/NAME.{log,rc}
miri_bg() {
    (
        cd "$H" || exit 2
        MIRIFLAGS="$MIRIFLAGS_COMMON $2" timeout -k 5 "$3" \
            cargo +nightly miri run -q --offline --target-dir "$T/miri" -- seq "$ID" "$4" "$5" "$6" >"$W/$1.log" 2>&1
        echo $? >"$W/$1.rc"
    ) &
}

MIRI_BAD='Undefined Behavior|Data race detected|data race|SEQ-VIOLATION|deadlock|abnormal termination|the program aborted'
miri_judge() { # NAME FLAGS
    local log="$W/$1.log" rc
    rc="$(cat "$W/$1.rc" 2>/dev/null || echo 99)"
    if [ "$rc" != 0 ] && grep -qE "$MIRI_BAD" "$log" && ! grep -q "could not compile" "$log"; then
        local line wl idx
        line="$(grep -m1 SEQ-VIOLATION "$log")"
        wl="$(echo "$line" | cut -d' ' -f2)"
        idx="$(echo "$line" | cut -d' ' -f3)"
        if [ -z "$wl" ]; then
            line="$(grep SEQ-CASE "$log" | tail -1)"
            wl="$(echo "$line" | cut -d' ' -f2)"
            idx="$(echo "$line" | cut -d' ' -f3)"
        fi
        fail miri "$log" "$wl" "$idx" "$2"
    fi
    return "$rc"
}

if [ "$ID" = C24 ] || [ "$ID" = C21 ]; then
    # Build the interpreter's sysroot and the crate once before the parallel runs.
    if ! (cd "$H" && MIRIFLAGS="$MIRIFLAGS_COMMON" timeout -k 5 240 cargo +nightly miri run -q --offline --target-dir "$T/miri" -- list) >"$W/miri0.log" 2>&1; then
        add_extra '{"tool": "miri", "completed": false, "why": "the interpreter did not start"}'
        echo "note: Miri did not start"; tail -3 "$W/miri0.log"
    elif [ "$ID" = C24 ]; then
        if [ "$TIER" = thorough ]; then n=150 lim=200; else n=20 lim=120; fi
        for k in 0 1 2 3 4 5 6 7; do
            miri_bg "m$k" "" "$lim" "$n" "samplers,construct,config" $((k * n + (VERIF_SEED % 1000) * 100000))
        done
        wait
        ok=0 cases=0
        for k in 0 1 2 3 4 5 6 7; do
            if miri_judge "m$k" ""; then ok=$((ok + 1)); fi
            cases=$((cases + $(grep -c SEQ-CASE "$W/m$k.log")))
        done
        add_extra "{\"tool\": \"miri (undefined behaviour, aliasing, uninitialised memory)\", \"processes\": 8, \"ran to the end\": $ok, \"cases interpreted\": $cases}"
        echo "  miri: $cases cases interpreted, $ok of 8 processes ran to the end"
    else
        if [ "$TIER" = thorough ]; then seeds=96 n=4 lim=230; else seeds=48 n=1 lim=120; fi
        f="-Zmiri-many-seeds=0..$seeds"
        miri_bg m0 "$f" "$lim" "$n" "" $((VERIF_SEED % 1000 * 1000))
        wait
        ok=false
        if miri_judge m0 "$f"; then ok=true; fi
        runs=$(grep -c SEQ-OK "$W/m0.log")
        cases=$(grep -c SEQ-CASE "$W/m0.log")
        add_extra "{\"tool\": \"miri (data races, deadlock, undefined behaviour)\", \"ran to the end\": $ok, \"schedules\": $runs, \"concurrent cases interpreted\": $cases}"
        echo "  miri: $runs schedules of $n cases of every workload ($cases executions)"
    fi
fi

# san NAME FLAG ENVVAR BUILDFLAGS SECONDS SCALE
san() {
    local name="$1" flag="$2" secs="$4" scale="$5"
    local d="$T/$name" log="$W/$name.log" rc
    if ! (cd "$H" && RUSTFLAGS="-Zsanitizer=$flag -Cforce-frame-pointers=yes" timeout -k 5 300 cargo +nightly build --release --offline $3 --target x86_64-unknown-linux-gnu --target-dir "$d") >"$W/$name.build" 2>&1; then
        add_extra "{\"tool\": \"$name\", \"completed\": false, \"why\": \"did not build\"}"
        echo "note: $name did not build"
        return
    fi
    VERIF_TIER=quick VMON_NOLIMIT=1 VMON_SCALE="$scale" VMON_CAP_S="$secs" VMON_EVIDENCE="$W" \
        ASAN_OPTIONS=exitcode=77:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=8192 TSAN_OPTIONS=exitcode=77:halt_on_error=1 \
        timeout -k 5 $((secs * 2)) "$d/x86_64-unknown-linux-gnu/release/vmon" run "$ID" >"$log" 2>&1
    rc=$?
    if grep -qE 'ERROR: AddressSanitizer|WARNING: ThreadSanitizer' "$log" || { [ $rc = 1 ] && grep -q '^VIOLATION' "$log"; }; then
        grep -v '^VIOLATION' "$log" >"$log.2"
        fail "$name" "$log.2" "$(sed -n 's/^workload //p' "$W/replay/$ID.txt" 2>/dev/null)" "$(sed -n 's/^index //p' "$W/replay/$ID.txt" 2>/dev/null)"
    fi
    local line
    line="$(grep "^$ID:" "$log" | tail -1)"
    add_extra "{\"tool\": \"$name\", \"exit\": $rc, \"summary\": \"$(echo "$line" | tr -d '"\\')\"}"
    echo "  $name: exit $rc; $line"
}

if [ "$TIER" = thorough ]; then
    case "$ID" in C21 | C24) export VMON_CAP_S=240 ;; esac
    case "$ID" in
    C24) san asan address "" 120 2 ;;
    C21) san tsan thread "-Zbuild-std" 120 0.5 ;;
    esac
fi

if [ -n "$EXTRA" ]; then
    echo "[$EXTRA]" >"$W/extra.json"
    export VMON_EXTRA="$W/extra.json"
fi
"$T/release/vmon" run "$ID"
rc=$?
case $rc in 0 | 1) exit $rc ;; *) exit 2 ;; esac
