#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not. Run in the repository after its build.
D=$(cd "$(dirname "$0")" && pwd)
T=$PWD/_build/tree
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
gcc -O1 -w -DVERSION='"d"' -DUNIX -DPLATFORM=LINUX_GCC -DGBYTE_ORDER=BYTE_ORDER_LE -DNATIVE_SIZE=NATIVE_SIZE_64_BIT \
    -I"$T/src" -I"$T/misc" -I"$T/interfaces" -I"$D" "$D/demo.c" -o "$W/demo" -L"$T/src" -L"$T/misc" \
    -Wl,--start-group -lxrtm -lxrtm_misc -Wl,--end-group -lopenblas -fopenmp -lm -ldl @EXTRA@ || exit 2
"$W/demo"
