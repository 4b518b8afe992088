#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the monitor with /repo's current tree
# and decides one property. Exit 0: held; 1: VIOLATION; 2-4: no verdict.
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case "$id" in C[0-9][0-9]) ;; *) echo "usage: $0 C01..C31 [quick|thorough]" >&2; exit 2;; esac
V=$(cd "$(dirname "$0")" && pwd) || exit 3
REPO=/repo
export VERIF_TIER="$tier" VERIF_SEED="$seed"
T=$(mktemp -d /tmp/zzverif.XXXXXX) || exit 3
trap 'rm -rf -- "$T"' EXIT
. "$V/tools/build.sh"
mkdir -p "$V/evidence" "$V/out/replays"
rm -f -- "$V/evidence/$id.json"
flags=()
args=(-prop "$id" -tier "$tier" -seed "$seed" -evidence "$V/evidence/$id.json" -replays "$V/out/replays" -known "$V/known_findings.txt")
if [ "$id" = C19 ]; then
	# the whole monitor runs under the race detector; its reports go to a log
	# that the monitor reads.
	flags=(-race)
	args+=(-racelog "$T/race")
	export GORACE="log_path=$T/race halt_on_error=0 exitcode=0"
fi
build "$T/zzverif" "${flags[@]}" || { echo "cannot build the monitor from $REPO" >&2; exit 3; }
timeout -k 5 820 "$T/zzverif" "${args[@]}" 2>"$T/stderr"
rc=$?
cat "$T/stderr" >&2
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && grep -qE '^(fatal error: |panic: |runtime: goroutine stack exceeds)' "$T/stderr"; then
	# the runtime ended the process while the code under test ran: a stack
	# overflow, a concurrent map access, a panic in a goroutine of its own.
	replay="$V/out/replays/$id-crash.txt"
	head -c 20000 "$T/stderr" >"$replay"
	python3 - "$V/evidence/$id.json" "$id" "$tier" "$seed" "$replay" <<-'PY'
	import json, sys
	path, prop, tier, seed, replay = sys.argv[1:]
	json.dump({"property": prop, "tier": tier, "seed": int(seed), "level": "exploration", "wall_s": 0, "violations": 1,
	  "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the process crashed", "samples": [open(replay).read()[:2000]]},
	  "assumptions": []}, open(path, "w"))
	PY
	echo "the monitored process crashed: $(grep -m1 -E '^(fatal error: |panic: |runtime: )' "$T/stderr")"
	echo "VIOLATION property=$id replay=$replay"
	rc=1
fi
exit $rc
