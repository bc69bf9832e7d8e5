#!/bin/bash
# replay the newest (or given) replay file with the built binary, terse
f=${1:-$(ls -t /verif/replays/*.json | head -1)}
h=${2:-h_exec}
/verif/build/bin/$h --replay $f 2>&1 | grep -v "^    #.*\(libc\|_start\|engine.cpp\|std_function\)" | cut -c1-230 | tail -${N:-60}
