#!/bin/bash
# The store is compiled with a call at every basic block and every load and store: the preemption points of the scheduler.
rustc=$1
shift
case " $* " in
*" --crate-name meerkat_store "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc -C llvm-args=-sanitizer-coverage-trace-loads \
        -C llvm-args=-sanitizer-coverage-trace-stores
    ;;
*) exec "$rustc" "$@" ;;
esac
