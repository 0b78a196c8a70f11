#!/bin/bash
# compiles the library under test with a call at the entry of every function (see src/sched.rs), without inlining
rustc="$1"; shift
for a in "$@"; do
  if [ "$p" = --crate-name ] && [ "$a" = oxyroot ]; then
    exec env RUSTC_BOOTSTRAP=1 "$rustc" "$@" -Z instrument-mcount -Z share-generics=no -Z inline-mir=no -C opt-level=1 -C llvm-args="-inline-threshold=-100000 -inlinehint-threshold=-100000" -Z cross-crate-inline-threshold=never
  fi
  p="$a"
done
exec "$rustc" "$@"
