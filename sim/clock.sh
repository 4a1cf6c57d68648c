#!/bin/bash
# rustc wrapper of the stepped build: puts a tick of the simulated clock
# (base/src/clock.rs) in every basic block of the library, of what it uses of
# core and alloc, and of what is instantiated from their generic code in src.
rustc=$1
shift
name= target= prev=
for a in "$@"; do
    case $prev in
        --crate-name) name=$a ;;
        --target) target=$a ;;
    esac
    prev=$a
done
# build scripts and the like have no target
case ${target:+$name} in
    core | alloc | justjson | jjsim)
        exec "$rustc" "$@" -Clto=off -Cembed-bitcode=no -Cpasses=sancov-module \
            "-Cllvm-args=-sanitizer-coverage-level=3 -sanitizer-coverage-trace-pc-guard -sanitizer-coverage-prune-blocks=0" ;;
    jjbase) exec "$rustc" "$@" --cfg stepped ;;
esac
exec "$rustc" "$@"
