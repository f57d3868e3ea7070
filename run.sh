#!/bin/bash
# run.sh <property> <quick|thorough>: builds the checker from /repo's working
# tree in a scratch directory, runs it and removes the directory.
ID=$1 TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
GO=/usr/lib/go-1.21/bin/go
T=$(mktemp -d /tmp/jv-check.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
trap 'exit 2' INT TERM
mkdir -p "$HERE/evidence" "$HERE/replays"
EV=$HERE/evidence/$ID.json
rm -f "$EV"
cp -r "$HERE/harness" "$T/h" || exit 2
cd "$T/h" || exit 2
export TMPDIR=$T

build() { # build OUT FLAGS...
	local out=$1; shift
	if ! GOARCH=$ARCH $GO build -buildvcs=false "$@" -o "$out" ./cmd/jv >"$T/build.log" 2>&1; then
		echo "jv: building against /repo failed" >&2
		tail -40 "$T/build.log" >&2
		exit 2
	fi
}
run() { # run BINARY SEED SECS ARGS...
	local bin=$1 seed=$2 secs=$3; shift 3
	"$bin" -prop "$ID" -tier "$TIER" -seed "$seed" -secs "$secs" -evidence "$EV" -replays "$HERE/replays" -hashes "$T/hashes" "$@"
	local rc=$?
	[ $rc -eq 0 ] || exit $rc
}

ARCH=$($GO env GOHOSTARCH) FLAGS=()
[ "$ID" = C21 ] && FLAGS=(-race)
[ "$ID" = C34 ] && ARCH=386
build "$T/jv" "${FLAGS[@]}"
if [ $ARCH = 386 ] && ! "$T/jv" -prop list >/dev/null 2>&1; then
	echo "jv: this kernel doesn't run 32-bit programs, checking the 64-bit build" >&2
	ARCH=$($GO env GOHOSTARCH)
	build "$T/jv" "${FLAGS[@]}"
fi
if [ "$TIER" != thorough ]; then
	run "$T/jv" "$SEED" "${JV_SECS:-22}" -known "$HERE/known_findings.json"
	exit 0
fi
# Thorough: longer, with further generated destination types, and for the
# memory properties with the pointer checks and the address sanitizer.
START=$SECONDS
LIMIT=${JV_LIMIT:-780}
run "$T/jv" "$SEED" "${JV_SECS:-180}" -known "$HERE/known_findings.json"
case $ID in
C07|C18|C05|C15)
	if [ "$ID" = C18 ] || [ "$ID" = C15 ]; then
		build "$T/jv" -gcflags=all=-d=checkptr
		run "$T/jv" "$((SEED+1000))" 60 -append
	fi
	;;
esac
K=0
while :; do
	K=$((K+1))
	TS=$((SEED*1000+K))
	[ $((SECONDS-START+160)) -lt "$LIMIT" ] || break
	$GO run ./cmd/typegen -seed $TS -n 400 -direct 24 -out types >"$T/build.log" 2>&1 || { cat "$T/build.log" >&2; exit 2; }
	build "$T/jv" "${FLAGS[@]}"
	run "$T/jv" "$((SEED+K))" 90 -typeseed $TS -append
done
exit 0
