#!/bin/bash
# Developer helper: builds the worker from REPO (default /repo) into DIR (default /tmp/w).
. /opt/vp/env.sh
set -e
repo=${1:-/repo}; dir=${2:-/tmp/w}
[ -z "$dir" ] && exit 2
mkdir -p "$dir"
find "$dir" -mindepth 1 -delete
(cd /verif/sim && go build -o "$dir/instr.bin" ./instr)
"$dir/instr.bin" -repo "$repo" -out "$dir"
mkdir -p "$dir/verifsim"
cp -r /verif/sim/simrt /verif/sim/harness "$dir/verifsim/"
printf 'module github.com/nlpodyssey/goslide\n\ngo 1.21\n' > "$dir/go.mod"
(cd "$dir" && go build -o worker ./verifsim/harness)
