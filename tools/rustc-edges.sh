#!/bin/bash
# rustc for builds in which every edge between basic blocks of the code under test is a point where
# the simulated scheduler may switch threads.  Only the repository's own crates are instrumented.
rustc="$1"; shift
args=("$@")
name=""
for ((i = 0; i < ${#args[@]}; i++)); do
  [ "${args[$i]}" = "--crate-name" ] && name="${args[$((i + 1))]}"
done
case "$name" in
  atelier_dst) ;;
  atelier_* | cargo_atelier)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
