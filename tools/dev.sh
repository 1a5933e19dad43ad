#!/bin/bash
# development build: tools/dev.sh [src] -> $B/check
B=${B:-/tmp/dev}
SRC=${1:-/repo}
mkdir -p $B
rm -rf $B/dst && cp -r /verif/dst $B/dst && rm -rf $B/dst/repo
cd /verif/instr && go run . -src $SRC -out $B/dst/repo -dst $B/dst >$B/instr.log 2>&1 || { cat $B/instr.log; exit 1; }
cd $B/dst && go build -trimpath -o $B/check ./cmd/check
