#!/bin/bash
# builds tools/findbases into /verif/build (offline search for ball centres; not used by the checks)
V=$(cd "$(dirname "$0")/.." && pwd); R=${PSLP_REPO:-/repo}; d=$V/build/cov; mkdir -p $d
for f in $R/src/core/*.c $R/src/explorers/*.c; do case $f in */Debugger.c) continue;; esac; clang -std=c99 -D_POSIX_C_SOURCE=200809L '-DPSLP_VERSION="v"' -w -O1 -DNDEBUG -fno-inline -fsanitize-coverage=edge,trace-pc-guard -I$R/include/PSLP -I$R/include/core -I$R/include/data_structures -I$R/include/explorers -c $f -o $d/$(basename $f .c).o & done; wait
clang -std=c99 -D_POSIX_C_SOURCE=200809L -w -O1 -DNDEBUG -I$R/include/PSLP -I$R/include/core -I$R/include/data_structures -I$R/include/explorers -c $V/tools/ptypes.c -o $d/ptypes.o
rm -f $d/all.o $d/all.tmp; ld -r -o $d/all.tmp $d/*.o
nm $d/all.tmp | awk 'NF==3 && $2 ~ /[TDBRVWC]/ && $3 !~ /^(__|_ZN|sancov)/ {print $3, "rel_" $3}' | sort -u > $d/re
for s in malloc calloc realloc free aligned_alloc posix_memalign pthread_create pthread_join clock_gettime printf puts putchar vprintf __assert_fail abort exit; do echo "$s mc_$s"; done >> $d/re
sed -i '/post_types/d' $d/re
objcopy --redefine-syms=$d/re $d/all.tmp $d/all.o2 && rm -f $d/all.o
clang++ -std=c++17 -O1 -w -DSANITIZED_OFF -DONLY_REL -I$R/include/PSLP $V/tools/findbases.cpp $d/all.o2 -o $V/build/findbases -lm -lpthread
