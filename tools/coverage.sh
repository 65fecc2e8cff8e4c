#!/bin/bash
# coverage.sh OUTDIR CHECK...   line coverage of the library (gcov) by the quick spaces of the named checks
V=$(cd "$(dirname "$0")/.." && pwd); R=${PSLP_REPO:-/repo}; D=$1; shift; mkdir -p "$D/o"
INC="-I$R/include/PSLP -I$R/include/core -I$R/include/data_structures -I$R/include/explorers"
for f in "$R"/src/core/*.c "$R"/src/explorers/*.c; do case $f in */Debugger.c) continue;; esac
  (cd "$D/o" && gcc -std=c99 -D_POSIX_C_SOURCE=200809L -DPSLP_VERSION=\"v\" -w -O1 -DNDEBUG --coverage $INC -c "$f" -o "$D/o/$(basename "$f" .c).o") & done; wait
ld -r -o "$D/all.tmp" "$D"/o/*.o
nm "$D/all.tmp" | awk 'NF==3 && $2 ~ /[TDBRVWC]/ && $3 !~ /^(__|_ZN)/ {print $3, "rel_" $3}' | sort -u > "$D/re"
for s in malloc calloc realloc free aligned_alloc posix_memalign pthread_create pthread_join clock_gettime printf puts putchar vprintf __assert_fail abort exit; do echo "$s mc_$s"; done >> "$D/re"
objcopy --redefine-syms="$D/re" "$D/all.tmp" "$D/all.o"
g++ -std=c++17 -O2 -w -DONLY_REL -DCOV -I"$R/include/PSLP" "$V/src/mc.cpp" "$D/all.o" --coverage -o "$D/mc" -lm -lpthread || exit 1
export VERIF_HOME=$V; for c in "$@"; do rm -f "$D"/o/*.gcda; "$D/mc" --check $c --limit 800 --evidence /dev/null; mkdir -p "$D/$c"; (cd "$D/$c" && for f in "$D"/o/*.gcda; do gcov -b -o "$D/o" "$f" >> summary.txt 2>/dev/null; done); grep -h "#####" "$D/$c"/*.c.gcov | wc -l; done
