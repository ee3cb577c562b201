#!/bin/bash
# build.sh OUTDIR [race]: instrument /repo's working tree and build the
# simulator around it. Everything is written below OUTDIR.
set -euo pipefail
mkdir -p "$1/mod"
OUT=$(cd "$1" && pwd)
MODE=${2:-}
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
export GOFLAGS= GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on
(cd "$HERE/tools/instr" && go build -o "$OUT/instr" .)
"$OUT/instr" -repo "$REPO" -out "$OUT" -goroot "$(go env GOROOT)"
# The simulator's module: same dependency versions as the repository.
{
	echo "module verifsim"
	echo
	echo "go 1.24"
	echo
	sed -e '/^module /d' -e '/^\/\//d' -e '/^go [0-9]/d' "$REPO/go.mod"
	echo
	echo "require github.com/hashicorp/hcl2 v0.0.0"
	echo "replace github.com/hashicorp/hcl2 => $REPO"
} > "$OUT/mod/go.mod"
cp "$REPO/go.sum" "$OUT/mod/go.sum"
RACE=
TAGS=verif
if [ "$MODE" = race ]; then RACE=-race; fi
cd "$HERE/sim"
go build $RACE -tags "$TAGS" -mod=mod -modfile="$OUT/mod/go.mod" -overlay "$OUT/overlay.json" \
	-o "$OUT/simcheck" ./cmd/simcheck
