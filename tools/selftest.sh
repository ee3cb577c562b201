#!/bin/bash
# selftest.sh [PROPERTY...]: shows that a seed is one execution. The same runs
# are done by 1, 3 and 8 worker processes; the sums of their trace hashes,
# which cover every step, switch, fault and result, must agree.
# Development aid, not a check.
set -u
HERE=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d /tmp/selftest.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/plain" "$T/race"
bash "$HERE/tools/build.sh" "$T/plain" > "$T/log" 2>&1 || { cat "$T/log"; exit 3; }
bash "$HERE/tools/build.sh" "$T/race" race > "$T/log" 2>&1 || { cat "$T/log"; exit 3; }
BAD=0
for P in ${*:-$("$T/plain/simcheck" list)}; do
	M=plain; grep -qx "$P" "$HERE/race-properties" && M=race
	SUMS=
	for W in 1 3 8; do
		"$T/$M/simcheck" check -prop "$P" -seed "${VERIF_SEED:-1}" -runs "${RUNS:-240}" -secs 600 -workers $W \
			-evidence "$T/ev.json" -replays "$T/rep" -work "$T" -known "$HERE/known-findings.txt" > "$T/out" 2>&1 || { head -c 2000 "$T/out"; BAD=1; }
		SUMS="$SUMS $(sed -n 's/.*"trace_hash_sum": *"\([0-9a-f]*\)".*/\1/p' "$T/ev.json")"
	done
	set -- $SUMS
	if [ "${1:-x}" = "${2:-y}" ] && [ "${2:-y}" = "${3:-z}" ]; then echo "$P: $1 three times"; else echo "$P: DIFFERENT$SUMS"; BAD=1; fi
done
exit $BAD
