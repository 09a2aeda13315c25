#!/bin/sh
# gdb.sh REPLAY : where a replayed case stops
cd "$(dirname "$0")/.."
b=$(ls -t build/rel/bin/* | head -1)
gdb -batch -ex "set follow-fork-mode child" -ex run -ex "bt 14" --args ${BIN:-$b} --replay "$1" --replays /tmp 2>&1 | tail -25
