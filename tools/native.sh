#!/bin/bash
# native.sh GUEST.ll OUTDIR: builds OUTDIR/native from the same IR that is executed symbolically.
set -e
ll=$1; o=$2; here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$o"
bin=$(ls -d "${RUSTUP_HOME:-$HOME/.rustup}"/toolchains/stable-*/lib/rustlib/*/bin | head -1)
"$bin/llc" -O1 -relocation-model=pic -filetype=obj "$ll" -o "$o/guest.o"
nm --defined-only "$o/guest.o" | awk '$3 ~ /^vk_/ {print substr($3,4) " " $3}' > "$o/syms"
for s in malloc calloc realloc posix_memalign free pthread_create pthread_detach sched_yield abort; do echo "$s vr_$s"; done >> "$o/syms"
objcopy --redefine-syms="$o/syms" "$o/guest.o"
gcc -g -O1 -w -rdynamic -o "$o/native" "$here/native.c" -Wl,--whole-archive "$o/guest.o" -Wl,--no-whole-archive -lpthread -ldl -lm -lgcc_s
