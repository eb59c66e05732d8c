#!/bin/bash
# check.sh PROPERTY quick|thorough : build the tool from /repo's working tree, then decide.
# check.sh replay FILE
cd "$(dirname "$0")" || exit 2
export VH_VERIF=$PWD
VH_HOOKED=
if [ "$1" = C23 ] || { [ "$1" = replay ] && grep -q '"property": *"C23"' "$2"; }; then VH_HOOKED=yes; fi
. ./build.sh || { echo "check.sh: build failed" >&2; exit 2; }
if [ "$1" = replay ]; then exec /repo/target/debug/vh replay "$2"; fi
exec /repo/target/debug/vh check "$1" "${2:-${VERIF_TIER:-quick}}"
