#!/bin/sh
# check.sh <property id>: rebuild from /repo's working tree, then decide the property.
# Exit 0 held, 1 violated (VIOLATION line), 2 error of the check.
# check.sh replay <file>: run the one case of a replay file, in the build it names.
# check.sh build: only build.
#
# Every property is decided in two builds of the code: with debug assertions and overflow
# checks, and, on a share of the cases, without them ("ship"), as it is released.
dir=$(cd "$(dirname "$0")" && pwd)
log=$(mktemp -d) || exit 2
trap 'rm -rf "$log"' EXIT
std=std
wanted="checked ship"
case "$1" in
C28) std=no-std ;;
replay)
    case $(grep -o '"build": *"[a-z-]*"' "$2" 2>/dev/null) in
    *no-std-ship*) std=no-std wanted=ship ;;
    *no-std*) std=no-std wanted=checked ;;
    *std-ship*) wanted=ship ;;
    *) wanted=checked ;;
    esac
    ;;
esac
# build <std|no-std> <checked|ship>
build() {
    if [ "$1" = std ]; then features=; else features=--no-default-features; fi
    if [ "$2" = ship ]; then profile=ship; else profile=release; fi
    cd "$dir/harness" && CARGO_TARGET_DIR="$dir/target/$1-$2" cargo build --profile $profile $features --offline >"$log/$1-$2" 2>&1
}
# binary <std|no-std> <checked|ship>
binary() {
    if [ "$2" = ship ]; then echo "$dir/target/$1-$2/ship/vp"; else echo "$dir/target/$1-$2/release/vp"; fi
}
# build_all <std|no-std>: both at once
build_all() {
    pids=
    for k in $wanted; do
        build "$1" $k &
        pids="$pids $!:$1-$k"
    done
    for p in $pids; do
        if ! wait "${p%%:*}"; then
            tail -60 "$log/${p#*:}" >&2
            echo "check.sh: the harness does not build (${p#*:})" >&2
            exit 2
        fi
    done
}
build_all $std
if [ "$1" = build ]; then
    build_all no-std
    exit 0
fi
cd "$dir" || exit 2
if [ "$1" = replay ]; then
    "$(binary $std $wanted)" replay "$2"
    exit $?
fi
"$(binary $std checked)" check "$1" || exit $?
"$(binary $std ship)" check "$1"
exit $?
