#!/bin/bash
# build.sh WORK plain|race|both: weave the working tree of the repository and
# build the simulator around it, in the scratch directory WORK.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
work=$1
what=$2
repo=${DST_REPO:-/repo}
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p "$work/src"
(cd "$repo" && find . -name '*.go' ! -name '*_test.go' ! -path './.git/*' -print0 | tar cf - --null -T - go.mod go.sum) | tar xf - -C "$work/src"
cd "$here/dst"
go build -o "$work/weave" ./cmd/weave
"$work/weave" -src "$work/src" -out "$work/woven" -shims "$here/dst/shim" \
	-dep gopkg.in/natefinch/lumberjack.v2=lumberjack \
	-dep 'go.uber.org/zap=zap!' \
	-dep 'go.uber.org/zap/internal/bufferpool=zapbp!' \
	-dep 'go.uber.org/zap/internal/exit=zapexit!' >"$work/weave.log"
{
	echo "module verif/dst"
	echo
	echo "go 1.26"
	echo
	sed -n '/^require/,/^)/p' "$repo/go.mod"
	echo
	echo "require github.com/GalaIO/P2Pcrawler v0.0.0"
	echo "replace github.com/GalaIO/P2Pcrawler => $work/woven"
} >"$work/go.mod"
cp "$repo/go.sum" "$work/go.sum"
if [ "$what" != race ]; then
	go build -modfile "$work/go.mod" -o "$work/runner" ./cmd/runner
fi
if [ "$what" != plain ]; then
	cp "$work/go.mod" "$work/gorace.mod"
	cp "$work/go.sum" "$work/gorace.sum"
	# Packages built without -race would allocate behind the race detector's back.
	GOEXPERIMENT=nosizespecializedmalloc,noruntimefreegc go build -race -gcflags='verif/dst/...=-race=false -l' -modfile "$work/gorace.mod" -o "$work/runner_race" ./cmd/runner
fi
