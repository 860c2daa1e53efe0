#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree.
# exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
work=$(mktemp -d /tmp/dst.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
case $prop in
P15 | P17 | P21) what=both ;;
*) what=plain ;;
esac
case $tier in
quick) dur=${DST_DUR:-20s} ;;
thorough) dur=${DST_DUR:-600s} ;;
*) echo "check.sh: unknown tier $tier" >&2; exit 2 ;;
esac
t0=$(date +%s.%N)
if ! "$here/build.sh" "$work" $what >"$work/build.log" 2>&1; then
	echo "check.sh: building the simulator failed" >&2
	tail -40 "$work/build.log" >&2
	exit 2
fi
b=$(echo "$(date +%s.%N) - $t0" | bc 2>/dev/null || echo 0)
race=
[ $what = both ] && race="$work/runner_race"
"$work/runner" check -prop "$prop" -tier "$tier" -seed "$seed" -work "$work" -verif "$here" -race "$race" -dur "$dur" -build "${b:-0}"
