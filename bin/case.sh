#!/bin/bash
# developer tool: case.sh CONFIG PROG MODE DOMS CASE [SEED]
d=/verif/.build/$1
ASAN_OPTIONS=detect_leaks=0:handle_abort=0 UBSAN_OPTIONS=print_stacktrace=1 $d/$2 --mode $3 --seed ${6:-1} --start $5 --count 1 --libs $d --dom $4 --limit-ms 20000 --verbose
