#!/bin/bash
# RUSTC_WRAPPER: instruments the code under test and the workload (not the simulator core) with edge callbacks.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
cov=(-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard)
case "$name" in
  pddl|lazy_static) exec "$rustc" "$@" "${cov[@]}" ;;
  # Not position-independent: statics have the same addresses in every process.
  simdriver) exec "$rustc" "$@" "${cov[@]}" -C relocation-model=static ;;
  *) exec "$rustc" "$@" ;;
esac
