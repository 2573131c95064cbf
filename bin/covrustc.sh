#!/bin/bash
# Compiler wrapper of the coverage build: instruments the crate under test and the harness (generic code of the former is
# compiled into the latter), nothing else.
for a in "$@"; do
  [ "$p" = --crate-name ] && n=$a
  p=$a
done
case "$n" in
iri_string | harness)
  exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-inline-8bit-counters \
    -C llvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$@"
