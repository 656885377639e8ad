#!/bin/bash
# run.sh PROPERTY TIER [flags]: rebuilds the check of PROPERTY from /repo's current working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 3
ROOT=$PWD
PROP=$1; TIER=${2:-quick}; shift; shift 2>/dev/null
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
line=$(grep "^$PROP " "$ROOT/harness/groups.txt") || { echo "unknown property $PROP" >&2; exit 3; }
read -r _ GROUP MAPS SCHED RACE <<<"$line"
[ "$MAPS" = - ] && MAPS=
[ "${SCHED:--}" = - ] && SCHED=
T=$(mktemp -d "${TMPDIR:-/tmp}/verif-XXXXXX") || exit 3
trap 'rm -rf "$T"' EXIT
cd "$ROOT/harness" || exit 3
go build -o "$T/vinstr" ./vinstr >&2 || exit 3
mkdir -p "$T/ov"
[ "${RACE:--}" = - ] && RACE=
build() { # maps sched
	"$T/vinstr" -out "$T/ov" -maps "$1" -sched "$2" >&2 && go build $RACE -overlay "$T/ov/overlay.json" -o "$T/check" "./checks/$GROUP" >&2
}
if ! build "$MAPS" "$SCHED"; then
	# Without control of the schedules, if it is only that which does not work.
	[ -n "$SCHED" ] || exit 3
	build "$MAPS" "" || exit 3
fi
if [ "$GROUP" = cli ]; then # these run the program
	go build -buildvcs=false -o "$T/dctl" github.com/l7mp/dcontroller >&2 || exit 3
fi
[ -n "${VERIF_BUILD_ONLY:-}" ] && exit 0
cd "$ROOT" || exit 3
export VERIF_TIER=$TIER
[ -n "$RACE" ] && export GORACE="exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0 log_path=$T/race"
VERIF_SCRATCH=$T "$T/check" -prop "$PROP" -tier "$TIER" -root "$ROOT" "$@"
rc=$?
exit $rc
