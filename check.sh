#!/bin/bash
# check.sh PROPERTY: build the simulator around /repo's working tree and
# search for a violation of the property.
# check.sh replay FILE: run a replay file on the current tree.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
PROP=${1:?property}
mkdir -p "$HERE/.build"
OUT=$(mktemp -d "$HERE/.build/run.XXXXXXXX") || exit 3
trap 'rm -rf "$OUT"' EXIT
ID=$PROP
if [ "$PROP" = replay ]; then
	FILE=$(realpath "${2:?replay file}") || exit 3
	ID=$(sed -n 's/^ *"property": *"\(.*\)",*$/\1/p' "$FILE" | head -n 1)
fi
MODE=
case " $(cat "$HERE/race-properties" 2>/dev/null | tr '\n' ' ') " in *" $ID "*) MODE=race ;; esac
T0=$(date +%s.%N)
if ! bash "$HERE/tools/build.sh" "$OUT" $MODE > "$OUT/build.log" 2>&1; then
	cat "$OUT/build.log" >&2
	echo "build failed" >&2
	exit 3
fi
T1=$(date +%s.%N)
if [ "$PROP" = replay ]; then
	"$OUT/simcheck" replay -file "$FILE" -work "$OUT"
	exit $?
fi
TIER=${VERIF_TIER:-quick}
"$OUT/simcheck" check -prop "$ID" -tier "$TIER" -seed "${VERIF_SEED:-1}" \
	-evidence "$HERE/evidence/$ID.json" -replays "$HERE/evidence/replays" -work "$OUT" \
	-known "$HERE/known-findings.txt" -builds "$(echo "$T1 $T0" | awk '{print $1-$2}')" ${SIMCHECK_ARGS:-}
exit $?
