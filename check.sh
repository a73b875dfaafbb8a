#!/bin/bash
# check.sh PROPERTY [quick|thorough] | replay FILE | build
# Rebuilds the harness against /repo's current tree, then runs the monitors.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh" || exit 2
case "${1:-} ${2:-}" in
"P17 "* | "replay "*/P17-*) VH="$here/target/debug/vd" ;;
"P18 "* | "replay "*/P18-* | "replay "*-ap-*) VH="$here/target/debug/vg" ;;
esac
began=$SECONDS
# derived BIN PROPERTY FILE: builds the monitor of derived types; the code
# derived from the valid declarations of FILE must compile.
derived() {
    build $1 && return
    log="$here/target/build-${1%% *}.log"
    if grep -E "^error" -A4 "$log" | grep -qE "^ +--> .*src/$3"; then
        mkdir -p "$here/replays"
        cp "$log" "$here/replays/$2-derive-build.log"
        echo "VIOLATION property=$2 replay=$here/replays/$2-derive-build.log"
        exit 1
    fi
    echo "the harness does not build against /repo (no verdict)"
    exit 2
}
case "$VH" in
*/vd) derived vd P17 derive/types.rs ;;
*/vg) derived "vg tldr-rs" P18 generated/types.rs ;;
*) build vh tldr || { echo "the harness does not build against /repo (no verdict)"; exit 2; } ;;
esac
case "${1:-}" in
build) build vd; build vg tldr-rs; python3 "$here/san.py" build; exit 0 ;;
replay)
    case "$2" in *-build.log) cat "$2"; exit 1 ;; esac
    case "$2" in */P20-*an-* | */P20-miri-*) exec python3 "$here/san.py" replay "$2" ;; esac
    exec "$VH" replay "$2" ;;
P20)
    tier="${2:-${VERIF_TIER:-quick}}"
    "$VH" run P20 "$tier" || exit $?
    exec python3 "$here/san.py" run "$tier" $((SECONDS - began)) ;;
P10 | P11 | P19)
    tier="${2:-${VERIF_TIER:-quick}}"
    case "$1" in P10) n=20000 ;; P11) n=60000 ;; P19) n=10000 ;; esac
    [ "$tier" = thorough ] && n=$((n * 20))
    # Values read by a serde_json with `arbitrary_precision` (in the other build).
    second="$here/work/ap-/$1.json"
    rm -f "$second"
    if build vg tldr-rs > /dev/null; then
        VERIF_VARIANT=ap- "$here/target/debug/vg" run "$1" "$tier" $n || exit $?
    else
        echo "the generated types do not compile (see P18)"
    fi
    "$VH" run "$1" "$tier" || exit $?
    [ ! -f "$second" ] || python3 "$here/tools/merge.py" "$here/evidence/$1.json" "$second" "with serde_json's arbitrary_precision" ;;
*) exec "$VH" run "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
