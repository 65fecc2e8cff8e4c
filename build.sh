#!/bin/bash
# build.sh WHAT...   builds the checkers from the sources in /repo's working tree into /verif/build
# WHAT: mc (production + development build of PSLP in one explorer), san (ASan/UBSan explorer), race (scheduler)
set -e
V=$(cd "$(dirname "$0")" && pwd); R=${PSLP_REPO:-/repo}; B=${PSLP_BUILD:-$V/build}
INC="-I$R/include/PSLP -I$R/include/core -I$R/include/data_structures -I$R/include/explorers"
COMMON="-std=c99 -D_POSIX_C_SOURCE=200809L -DPSLP_VERSION=\"verif\" -U_FORTIFY_SOURCE -w"
# library FLAVOUR PREFIX CC FLAGS...: one relocatable object, its globals prefixed, its environment calls redirected
library() {
    local name=$1 prefix=$2 cc=$3; shift 3; local d=$B/$name; mkdir -p "$d"; rm -f "$d"/*.o
    local pids=() f
    for f in "$R"/src/core/*.c "$R"/src/explorers/*.c; do
        [[ "$*" == *-DNDEBUG* && $f == */Debugger.c ]] && continue
        $cc $COMMON "$@" $INC -c "$f" -o "$d/$(basename "$f" .c).o" & pids+=($!)
    done
    for p in "${pids[@]}"; do wait "$p"; done
    ld -r -o "$d/all.tmp" "$d"/*.o
    nm "$d/all.tmp" | awk -v P="$prefix" 'NF==3 && $2 ~ /[TDBRVWC]/ && $3 !~ /^(__asan|__ubsan|__odr_asan|asan\.|_ZN)/ {print $3, P $3}' | sort -u > "$d/redefine"
    local s
    for s in malloc calloc realloc free aligned_alloc posix_memalign strdup strndup reallocarray memalign valloc pthread_create pthread_join pthread_detach \
             clock_gettime gettimeofday time clock printf puts putchar vprintf fprintf vfprintf dprintf fputs fputc putc fwrite write perror __assert_fail abort exit $REDIRECT; do echo "$s mc_$s"; done >> "$d/redefine"
    objcopy --redefine-syms="$d/redefine" "$d/all.tmp" "$d/all.o"
}
for w in "$@"; do
    mkdir -p "$B"
    case $w in
    mc)
        (library rel rel_ gcc -O2 -DNDEBUG) & p1=$!
        (library dbg dbg_ gcc -O1 -g -DDEBUGGER_ENABLED -fno-strict-aliasing) & p2=$!
        (library pat pat_ gcc -O2 -DNDEBUG -ftrivial-auto-var-init=pattern) & p4=$!
        g++ -std=c++17 -O2 -w -I"$R/include/PSLP" -c "$V/src/mc.cpp" -o "$B/mc.o" & p3=$!
        wait $p1; wait $p2; wait $p3; wait $p4
        g++ "$B/mc.o" "$B/rel/all.o" "$B/dbg/all.o" "$B/pat/all.o" -o "$B/mc" -lm -lpthread ;;
    mat)
        library matsan rel_ clang -O1 -g -DNDEBUG -fsanitize=address -fno-omit-frame-pointer
        clang -O1 -g -w -fsanitize=address $COMMON $INC -c "$V/src/matshim.c" -o "$B/matshim.tmp"; objcopy --redefine-syms="$B/matsan/redefine" "$B/matshim.tmp" "$B/matshim.o"
        clang++ -std=c++17 -O2 -w -DSANITIZED -fsanitize=address "$V/src/mat.cpp" "$B/matshim.o" "$B/matsan/all.o" -o "$B/mat" -lm -lpthread ;;
    race)
        (REDIRECT="pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock qsort rand srand strtok" library race rel_ clang -O1 -g -DNDEBUG -fsanitize=thread) & p1=$!
        g++ -std=c++17 -O2 -w -DRACE -DONLY_REL -I"$R/include/PSLP" -c "$V/src/mc.cpp" -o "$B/mcrace.o" & p2=$!
        wait $p1; wait $p2
        g++ -no-pie "$B/mcrace.o" "$B/race/all.o" -o "$B/mcrace" -lm -lpthread ;;
    san)
        (library san rel_ clang -O1 -g -DNDEBUG -fsanitize=address,undefined -fno-sanitize=nonnull-attribute,pointer-overflow,function -fno-sanitize-recover=undefined -fno-omit-frame-pointer) & p1=$!
        clang++ -std=c++17 -O1 -w -DSANITIZED -fsanitize=address -I"$R/include/PSLP" -c "$V/src/mc.cpp" -o "$B/mcsan.o" & p2=$!
        wait $p1; wait $p2
        clang++ -fsanitize=address,undefined "$B/mcsan.o" "$B/san/all.o" -o "$B/mcsan" -lm -lpthread ;;
    esac
done
