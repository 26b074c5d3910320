#!/usr/bin/env bash
# ./check.sh <ID> quick|thorough    decide one property on /repo's current tree
# ./check.sh replay <file>          run the one case a replay file names
# ./check.sh setup                  build everything once
# Exit: 0 held, 1 violation (VIOLATION line), 3 the check itself could not run.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export MC_VERIF="$V"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
REPO=/repo
T="$V/target"
mkdir -p "$T" "$V/evidence" "$V/replays"
exec 9>"$T/.lock"; flock 9

# cargo decides by time stamps whether lcms2 changed; decide by content instead
fresh() { # target directory
    local h
    h="$( (cd "$REPO" && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd "$V" && find mc glue -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-64)"
    if [ "$(cat "$1/.stamp" 2>/dev/null)" != "$h" ]; then
        find "$1" -maxdepth 3 -path '*/.fingerprint/*' \( -name 'lcms2-*' -o -name 'mcglue-*' -o -name 'mc-*' \) -exec rm -rf {} + 2>/dev/null
        rm -f "$1/.stamp"
    fi
    STAMP="$h"
}
build() { # name, extra cargo arguments...
    local d="$T/$1"; shift
    mkdir -p "$d"
    fresh "$d"
    local f="--cfg lcms2_verif -A warnings"
    if ! (cd "$V/mc" && RUSTFLAGS="$f" CARGO_TARGET_DIR="$d" cargo build --offline --quiet "$@") >"$d/build.log" 2>&1; then
        tail -40 "$d/build.log" >&2
        echo "check.sh: build failed ($d/build.log)" >&2
        exit 3
    fi
    echo "$STAMP" >"$d/.stamp"
}
checked() { build checked; BIN="$T/checked/debug/mc"; }
plain() { build plain --release; PLAIN="$T/plain/release/mc"; }
little() { build le --features le; LE="$T/le/debug/mc"; }
sched() {
    local d="$T/sched"
    mkdir -p "$d"
    fresh "$d"
    if ! (cd "$V/mc" && RUSTC_WRAPPER="$V/mc/instrument.sh" RUSTFLAGS="--cfg lcms2_verif --cfg mc_sched -A warnings" CARGO_TARGET_DIR="$d" cargo build --offline --quiet) >"$d/build.log" 2>&1; then
        tail -40 "$d/build.log" >&2
        echo "check.sh: build failed ($d/build.log)" >&2
        exit 3
    fi
    echo "$STAMP" >"$d/.stamp"
    SCHED="$d/debug/mc"
}
verdict() { case "$1" in 0|1) return "$1";; *) return 3;; esac; }

run() { # id tier
    case "$1" in
    C07|C11|C26)
        checked; little
        "$BIN" check "$1" "$2"; local a=$?
        [ $a = 0 ] || return $a
        MC_PART=le "$LE" check "$1" "$2"; a=$?
        "$BIN" merge "$1" le || return 3
        return $a;;
    C18)
        checked; sched
        "$BIN" check "$1" "$2"; local a=$?
        [ $a = 0 ] || return $a
        MC_PART=sched "$SCHED" check "$1" "$2"; a=$?
        "$BIN" merge "$1" sched || return 3
        return $a;;
    C17|C31) sched; "$SCHED" check "$1" "$2";;
    C27) checked; plain; "$BIN" parity "$2" "$PLAIN";;
    *) checked; "$BIN" check "$1" "$2";;
    esac
}

case "${1:-}" in
setup)
    checked; plain; little; sched
    exit 0;;
replay)
    f="$2"
    get() { sed -n "s/^$1=//p" "$f" | head -1; }
    case "$(get build)" in
    both) checked; plain
        timeout 600 "$BIN" parityone "$(get tier)" "$PLAIN" "$(get of)" "$(get section)" "$(get index)"
        verdict $?; exit $?;;
    *little*) little; B="$LE";;
    plain*) plain; B="$PLAIN";;
    scheduled*) sched; B="$SCHED";;
    *) checked; B="$BIN";;
    esac
    timeout 600 "$B" one "$(get property)" "$(get tier)" "$(get section)" "$(get index)" "$(get schedule)"
    verdict $?; exit $?;;
C[0-9][0-9])
    run "$1" "${2:-quick}"
    verdict $?; exit $?;;
*)
    echo "usage: check.sh <ID> quick|thorough | replay <file> | setup" >&2
    exit 3;;
esac
