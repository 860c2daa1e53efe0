#!/bin/bash
# replay.sh FILE: rebuild and re-execute a replay file, printing its trace.
# exit 1: the violation happened again; 0: it did not; other: trouble.
set -u
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1")
work=$(mktemp -d /tmp/dst.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
what=plain
bin=runner
if grep -q '"race": true' "$file"; then what=race; bin=runner_race; fi
"$here/build.sh" "$work" $what >"$work/build.log" 2>&1 || { cat "$work/build.log" >&2; exit 2; }
GORACE="halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3 log_path=$work/race" "$work/$bin" replay -racelog "$work/race" -file "$file"
