#!/bin/bash
# The linker rustc calls for the target build/sbf.json: links the program for the chain (sBPF v0) with the installed
# sBPF linker. Unlike /opt/vp/sbpf/bin/sbpf-linker it writes nowhere but where rustc says.
opt= prev= out=
for a in "$@"; do [ "$prev" = -o ] && out=$a; prev=$a; done
# the linker's LLVM knows no Os and Oz: the optsize attribute does that
case " $* " in *" -O s "*|*" -Os "*|*" -O z "*|*" -Oz "*) opt=-O2;; esac
name=$(basename "$out" .so); name=${name#lib}; name=${name%%-*}
# dependencies that are cdylibs too are not wanted as programs
[ "$name" = spl_token_wrap ] || { : > "$out"; exit 0; }
here=/opt/vp/sbpf
exec "$here/bin/sbpf-linker.real" --arch=v0 --deploy=false --llvm-args=--bpf-stack-size=4096 \
  --export entrypoint,__eqdf2,__nedf2,__ledf2,__ltdf2,__unorddf2,__floatdidf,__fixdfdi \
  "$here/lib/libsolana_compiler_builtins.rlib" "$@" $opt
