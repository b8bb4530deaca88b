#!/bin/bash
# Linker for 32-bit x86: there are 32-bit shared libraries, but no start files or development links.
d="$CTV_DIR/target/i686-lib.$$"
mkdir -p "$d" || exit 1
trap 'rm -r "$d"' EXIT
for l in c gcc_s m dl pthread rt util; do
  for f in /usr/lib32/lib$l.so.[0-9]*; do ln -s "$f" "$d/lib$l.so" 2>/dev/null; done
done
gcc -m32 -c "$(dirname "$0")/start.S" -o "$d/start.o" || exit 1
ld -m elf_i386 -dynamic-linker /usr/lib32/ld-linux.so.2 -rpath /usr/lib32 "$d/start.o" -L"$d" "$@" /usr/lib32/ld-linux.so.2
