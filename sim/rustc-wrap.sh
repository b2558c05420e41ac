#!/bin/bash
# RUSTC_WRAPPER of the harness build: the library gets a scheduling point at every basic block, load and store
rustc="$1"; shift
case " $* " in
*" --crate-name elm_parser "*) exec "$rustc" "$@" "-Cpasses=sancov-module,function(tsan)" -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc \
    -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
*" --crate-name parse_threads "*) exec "$rustc" "$@" -Clink-arg=-Wl,--unresolved-symbols=ignore-all ;;
esac
exec "$rustc" "$@"
