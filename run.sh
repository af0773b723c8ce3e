#!/bin/bash
# Usage: run.sh check PROP | replay FILE | build
# Builds the harness against the working tree of /repo (VERIF_REPO overrides) in a
# temporary directory and runs it.  Exit 0: held, 1: violated, 2: no answer.
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR VERIF_REPO=${VERIF_REPO:-/repo}
if [ -d /opt/veriftools/go1.27.3/bin ]; then PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOENV=off CGO_ENABLED=1
unset GOOS GOARCH GOEXPERIMENT GODEBUG GORACE GOMAXPROCS GOGC GOMEMLIMIT
cmd=$1 arg=$2
[ -n "$cmd" ] || { echo "usage: run.sh check PROP | replay FILE" >&2; exit 2; }

tmp=$(mktemp -d /tmp/verif-run.XXXXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
trap 'exit 2' INT TERM HUP

sed "s#=> /repo\$#=> $VERIF_REPO#" "$VERIF_DIR/harness/go.mod" >"$tmp/go.mod" || exit 2
cp "$VERIF_DIR/harness/go.sum" "$tmp/go.sum" || exit 2

race=
case $cmd in
check) [ "$arg" = P22 ] && race=-race ;;
replay)
	arg=$(realpath "$arg") || exit 2
	grep -q '"property": "P22"' "$arg" && race=-race
	grep -q '"arch": "386"' "$arg" && export GOARCH=386 CGO_ENABLED=0 ;;
build) race=$arg ;;
esac
build() {
	(cd "$VERIF_DIR/harness" && go build $race -modfile="$tmp/go.mod" -buildvcs=false -trimpath -o "$tmp/harness" .)
}
if ! build 2>"$tmp/build.log"; then
	# once more: a cache may have been cleaned under it
	if ! build 2>"$tmp/build.log"; then
		echo "error: the harness does not build against $VERIF_REPO" >&2
		head -c 4000 "$tmp/build.log" >&2
		exit 2
	fi
fi
[ "$cmd" = build ] && exit 0
export TMPDIR=$tmp
"$tmp/harness" "$cmd" "$arg" || exit
[ "$cmd" = check ] && [ -z "$race" ] || exit 0
secs=12
[ "$VERIF_TIER" = thorough ] && secs=100
# coverage-guided search, where a C compiler with libFuzzer is there
fuzzer() {
	(cd "$VERIF_DIR/harness" && go build -tags libfuzzer -gcflags='github.com/suapapa/go_hangul/...=-d=libfuzzer' -buildmode=c-archive \
		-modfile="$tmp/go.mod" -buildvcs=false -trimpath -o "$tmp/fuzzer.a" .) && clang -fsanitize=fuzzer "$tmp/fuzzer.a" -o "$tmp/fuzzer"
}
if "$tmp/harness" guidable "$arg"; then
	if fuzzer >"$tmp/build.log" 2>&1; then
		"$tmp/harness" guided "$arg" "$tmp/fuzzer" "${VERIF_GUIDED_SECS:-$secs}" || exit
	else
		echo "note: no fuzzer can be built here, that pass is left out" >&2
	fi
fi
[ "$VERIF_TIER" = thorough ] || exit 0
# the same on a 32-bit platform, less deeply
export GOARCH=386 CGO_ENABLED=0
build 2>"$tmp/build.log" || { echo "note: no 32-bit build, that pass is left out" >&2; exit 0; }
"$tmp/harness" list >/dev/null 2>&1 || { echo "note: 32-bit programs do not run here, that pass is left out" >&2; exit 0; }
VERIF_TIER=quick VERIF_ALSO=32_bit_pass "$tmp/harness" check "$arg"
