#!/bin/bash
# ./run.sh <property> [mc flags]: rebuilds the harness against /repo's current
# working tree and runs one check. VERIF_TIER=quick|thorough.
cd "$(dirname "$0")" || exit 2
. ./env.sh
ID="$1"; shift
BIN=$(mktemp -d) || exit 2
trap 'rm -rf "$BIN"' EXIT
fail() { echo "harness does not build against /repo" >&2; exit 2; }
case "$ID" in
C16|C24)
	# a build with the library's source instrumented (see mc/cmd/instr)
	mkdir "$BIN/src" && ( cd mc && go build -o "$BIN/instr" ./cmd/instr ) && "$BIN/instr" -root /repo -out "$BIN/src" || fail
	FLAGS="-overlay $BIN/src/overlay.json"
	if [ "$ID" = C16 ]; then
		export CGO_ENABLED=1 GORACE="log_path=$BIN/race exitcode=0 atexit_sleep_ms=0 history_size=3"
		FLAGS="$FLAGS -race"
	fi
	( cd mc && go build $FLAGS -o "$BIN/mc" ./cmd/mc ) || fail
	;;
*)
	( cd mc && go build -o "$BIN/mc" ./cmd/mc ) || fail
	;;
esac
"$BIN/mc" -check "$ID" "$@"
