#!/bin/bash
# usage: checks/run.sh PROPERTY quick|thorough [--replay FILE | --case STR]
# Rebuilds the harness of PROPERTY from /repo's current working tree and runs it.
set -u
P="$1"; T="$2"; shift 2
V="$(cd "$(dirname "$0")/.." && pwd)"; R="${REPO_DIR:-/repo}"
. "$V/checks/flags.sh"
SRC="$(harness_of "$P")"; [ -n "$SRC" ] || { echo "no harness for $P" >&2; exit 2; }
B="$(mktemp -d "${TMPDIR:-/tmp}/vf.XXXXXX")" || exit 2
trap '/bin/rm -rf "$B"' EXIT
mkdir -p "$V/out" "$V/evidence"
export VERIF_DIR="$V" VERIF_OUT="$V/out/$P" VERIF_TIER="$T" VERIF_BUILD="$B" REPO_DIR="$R"
mkdir -p "$VERIF_OUT"
build_harness "$SRC" "$B/h" >"$VERIF_OUT/build.log" 2>&1 || { echo "harness $SRC does not build against $R (see $VERIF_OUT/build.log)" >&2; tail -5 "$VERIF_OUT/build.log" >&2; exit 2; }
[ "${1:-}" = --replay ] && set -- --replay "$(realpath "$2")"
cd "$B" # code under test may write files into the current directory
"$B/h" --prop "$P" --tier "$T" "$@"
