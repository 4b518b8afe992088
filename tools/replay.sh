#!/bin/bash
# replay.sh FILE: runs the case of a replay file against /repo's current tree.
V=$(cd "$(dirname "$0")/.." && pwd) || exit 3
REPO=/repo
T=$(mktemp -d /tmp/zzverif.XXXXXX) || exit 3
trap 'rm -rf -- "$T"' EXIT
. "$V/tools/build.sh"
flags=()
args=(-replay "$1" -known "$V/known_findings.txt")
case "$1" in */C19-*)
	flags=(-race)
	args+=(-racelog "$T/race")
	export GORACE="log_path=$T/race halt_on_error=0 exitcode=0" ;;
esac
build "$T/zzverif" "${flags[@]}" && "$T/zzverif" "${args[@]}"
