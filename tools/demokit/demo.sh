#!/bin/bash
# Builds the application from the sources in the current directory with a stub of the Ledger SDK and runs demo.cpp against it.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2; trap 'rm -rf "$t"' EXIT
F="-DHAVE_BAGL -DAPPNAME=\"Ergo\" -DAPPVERSION=\"3.7.5\" -DMAJOR_VERSION=3 -DMINOR_VERSION=7 -DPATCH_VERSION=5 -I$d/kit/sdk/include -Isrc -w -O1 -g -fno-omit-frame-pointer"
[ -e "$d/flags" ] && F="$F $(cat "$d/flags")"
export F t d
find src -name '*.c' | sort | xargs -P8 -I{} bash -c 'clang -std=gnu11 $F -c {} -o $t/a-$(echo {} | tr / _).o' || exit 2
for s in base58 bip32 buffer read varint write; do echo $s; done | xargs -P8 -I{} bash -c 'clang -std=gnu11 $F -c $d/kit/sdk/src/{}.c -o $t/s-{}.o' || exit 2
[ -e "$d/unit.c" ] && { clang -std=gnu11 $F -c $d/unit.c -o $t/u.o || exit 2; }
printf '%s\n' kit/sdk/src/stub.cpp kit/sdk/src/prim.cpp kit/harness/ref.cpp demo.cpp | xargs -P8 -I{} bash -c 'clang++ -std=c++17 $F -I$d/kit -c $d/{} -o $t/c-$(basename {}).o' || exit 2
clang++ $F $t/*.o -o $t/demo -lgmp || exit 2
timeout 120 "$t/demo"
