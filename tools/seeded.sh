#!/bin/bash
# Runs the quick check of its property against each planted bug (arguments: which; default
# all), in a scratch copy of /repo.  By hand, after changes of the generators; no check
# uses it.
cd "$(dirname "$0")/.." || exit 2
tmp=$(mktemp -d /tmp/seeded.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp -a /repo "$tmp/repo" || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for b; do
	git -C "$tmp/repo" checkout -q -- . && git -C "$tmp/repo" apply "$PWD/seeded/$b/patch.diff" || { echo "$b does not apply"; continue; }
	p=$(grep -o '"property": *"P[0-9]*"' "seeded/$b/meta.json" | grep -o 'P[0-9]*')
	out=$(VERIF_REPO="$tmp/repo" bash run.sh check "$p" 2>&1)
	case $? in
	1) echo "$b $p caught: $(echo "$out" | grep -m1 -o 'kind [a-z]* ([a-z]*')" ;;
	*) echo "$b $p MISSED: $(echo "$out" | tail -1)" ;;
	esac
done
