#!/bin/bash
# trybug.sh <patch> <property>...: applies a planted bug to /repo, runs the checks, and takes it back.
patch="$(readlink -f "$1")"; shift
git -C /repo apply "$patch" || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
for p in "$@"; do
	/verif/check.sh "$p" quick 2>&1 | cut -c1-900 | sed "s/^/[$p] /"
done
