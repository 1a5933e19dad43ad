#!/bin/bash
# selftest/run.sh [runs]: compares the simulator with the real runtime.
set -e
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$here" && go run ./native >"$T/want"
cp -r "$here/../dst" "$T/dst"; rm -rf "$T/dst/repo"
(cd "$here/../instr" && go run . -src "$here" -pkgs ./lib -out "$T/dst/repo" -dst "$T/dst")
mkdir -p "$T/dst/cmd/selftest" && cp sim/main.go "$T/dst/cmd/selftest/"
cd "$T/dst" && rm -rf harness node cmd/check cmd/conformance
cat >go.mod <<G
module verif.local/dst

go 1.23

require verif.local/selftest v0.0.0

replace verif.local/selftest => ./repo
G
sed -i '/^require/d' repo/go.mod; printf '\nrequire verif.local/dst v0.0.0\nreplace verif.local/dst => ../\n' >>repo/go.mod
go build -o "$T/sim" ./cmd/selftest
"$T/sim" -want "$T/want" -seeds "${1:-300}"
