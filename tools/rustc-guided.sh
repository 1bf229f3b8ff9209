#!/bin/bash
# compile the code under test with coverage and comparison callbacks
for a; do [ "$p" = --crate-name ] && n=$a; p=$a; done
if [ "$n" = magmaflow ]; then
  exec "$@" -Copt-level=1 -Cdebug-assertions=off -Coverflow-checks=on -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares
fi
exec "$@"
