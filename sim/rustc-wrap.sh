#!/bin/bash
# Called by cargo as: rustc-wrap.sh <rustc> <args...>.
# Library crates built for the target get LLVM's thread instrumentation, limited
# to atomic operations; the simulator supplies the __tsan_atomic* functions.
# Host crates (build scripts, proc macros) and the simulator itself do not.
name="" target=no prev=""
for a in "$@"; do
  [ "$prev" = --crate-name ] && name="$a"
  [ "$a" = --target ] && target=yes
  prev="$a"
done
if [ $target = yes ] && [ -n "$name" ] && [ "$name" != dochy_sim ] && [ "$name" != build_script_build ]; then
  exec "$@" -Zsanitizer=thread -Cllvm-args=-tsan-instrument-memory-accesses=false \
    -Cllvm-args=-tsan-instrument-func-entry-exit=false -Cllvm-args=-tsan-instrument-memintrinsics=false
fi
exec "$@"
