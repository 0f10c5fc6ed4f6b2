#!/bin/bash
# what cargo runs instead of rustc, to build the code under test so that it tells what it reaches
rustc=$1; shift
case " $* " in
*" --crate-name veriflib "*) exec "$rustc" "$@" --cfg guided ;;
*" --crate-name undname "*) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$rustc" "$@"
