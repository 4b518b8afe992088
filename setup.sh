#!/bin/bash
# Warms the build cache; every check builds its own monitor from /repo.
V=$(cd "$(dirname "$0")" && pwd) || exit 3
REPO=/repo
T=$(mktemp -d /tmp/zzverif.XXXXXX) || exit 3
trap 'rm -rf -- "$T"' EXIT
. "$V/tools/build.sh"
mkdir -p "$V/evidence" "$V/out/replays"
build "$T/zzverif" && build "$T/zzverif-race" -race
