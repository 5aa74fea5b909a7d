#!/bin/bash
# RUSTC_WRAPPER: instruments the library, and nothing else.
for a in "$@"; do
  if [ "$prev" = --crate-name ] && [ "$a" = upon ]; then
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 \
      -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
      -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1
  fi
  prev=$a
done
exec "$@"
