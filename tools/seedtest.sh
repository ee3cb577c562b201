#!/bin/bash
# seedtest.sh ID [demo|check|all]: try a planted change in a scratch copy of
# /repo: builds, stable tests, demonstration before and after, then the check of
# its property (or of the properties in CHECKS). Development aid, not a check.
set -u
HERE=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; WHAT=${2:-all}
S=$HERE/seeded/$ID
T=$(mktemp -d /tmp/seedtest.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
cp -a /repo "$T/repo"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
cd "$T/repo" || exit 3
git checkout -q -- . 
if [ "$WHAT" != check ]; then
	(bash "$S/demo.sh" > "$T/demo0.log" 2>&1); D0=$?
fi
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 3; }
if [ "$WHAT" != check ]; then
	go build ./... || { echo "$ID: does not build"; exit 3; }
	(bash "$S/demo.sh" > "$T/demo1.log" 2>&1); D1=$?
	sed -e "s#/repo#$T/repo#g" -e "s#/opt/vp/log#$T/log#g" /opt/vp/test.sh > "$T/test.sh"
	R=$(bash "$T/test.sh" "$T/res.json" 2>&1 | tail -n 1)
	echo "$ID: demo clean=$D0 patched=$D1; tests: $R"
	if [ $D0 != 0 ]; then tail -n 15 "$T/demo0.log"; fi
	if [ $D1 = 0 ]; then tail -n 15 "$T/demo1.log"; fi
	case $R in "1261 passed, 0 failed"*) ;; *) python3 - "$T/res.json" <<'P'
import json,sys
d=json.load(open(sys.argv[1])); print(str(d.get("failed", d))[:600])
P
	;; esac
fi
if [ "$WHAT" != demo ]; then
	P=$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$S/meta.json")
	for C in ${CHECKS:-$P}; do
		MODE=; grep -qx "$C" "$HERE/race-properties" && MODE=race
		VERIF_REPO=$T/repo bash "$HERE/tools/build.sh" "$T/b" $MODE > "$T/build.log" 2>&1 || { cat "$T/build.log"; exit 3; }
		for SEED in ${SEEDS:-1}; do
			"$T/b/simcheck" check -prop "$C" -tier quick -seed "$SEED" -evidence "$T/ev.json" -replays "$T/rep" -work "$T" -known "$HERE/known-findings.txt" > "$T/out.log" 2>&1
			E=$?
			echo "$ID: check $C seed $SEED exit $E: $(grep -c '^VIOLATION property=' "$T/out.log") violation(s); $(grep -a "^$C: [0-9]* runs" "$T/out.log" | head -n 1)"
			if [ -n "${SHOW:-}" ]; then head -c "${SHOW}" "$T/out.log"; echo; fi
		done
	done
fi
