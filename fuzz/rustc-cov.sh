#!/bin/bash
# instruments the crate under test (and the pure-Rust decoders it drives) only
case " $* " in
  *" --crate-name async_tiff "*|*" --crate-name jpeg_decoder "*|*" --crate-name weezl "*|*" --crate-name lerc "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares ;;
  *) exec "$@" ;;
esac
