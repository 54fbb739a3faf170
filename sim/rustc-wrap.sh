#!/bin/sh
# Instruments the code under test (and nothing else) with a call per basic block
# (the simulator's step counter and its finest preemption point) and a call in place of
# every atomic operation.
rustc="$1"; shift
case " $* " in
*" --crate-name teleparse "*|*" --crate-name simgen "*|*" --crate-name simlx "*|*" --crate-name logos "*)
  exec "$rustc" "$@" "-Cpasses=sancov-module tsan-module tsan" \
    -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
    -Cllvm-args=-force-attribute=sanitize_thread -Cllvm-args=-tsan-instrument-memory-accesses=0 \
    -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 ;;
esac
exec "$rustc" "$@"
