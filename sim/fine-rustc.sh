#!/bin/bash
# RUSTC_WRAPPER of the fine-grained build: every basic block of the library, and every access of it
# to memory, reports to the scheduler.
case " $* " in
*" --crate-name visqol_rs "*|*" --crate-name vq "*) exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores ;;
*) exec "$@" ;;
esac
