#!/bin/bash
# RUSTC_WRAPPER: compiles the code under simulation with step, load and store callbacks.
rustc="$1"; shift
name=
p=
for x in "$@"; do
  [ "$p" = --crate-name ] && name="$x"
  p="$x"
done
cgu=1
case "$name" in
  simcheck|pgnumeric|smallvec|lazy_static|strtod) ;;
  *) exec "$rustc" "$@" ;;
esac
exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
  -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
  -Cllvm-args=-sanitizer-coverage-trace-stores -Ccodegen-units=$cgu
