#!/bin/bash
# build.sh VARIANT OUTDIR : builds the driver from /repo's working tree
# variants: rel (NDEBUG -O2), wrap (rel with allocations and the thread under control), asan, tsan, vg (for valgrind)
set -e
variant=$1; out=$2
R=${PSLP_REPO:-/repo}
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$out"
INC="-I$R/include/PSLP -I$R/include/core -I$R/include/data_structures -I$R/include/explorers"
DEF='-DPSLP_VERSION="verif" -D_POSIX_C_SOURCE=200809L'
CF="-std=c99 -g -w -fPIC"
CXXF="-std=c++17 -O2 -g -w"
LD=""
case $variant in
 rel) CF="$CF -O2 -DNDEBUG";;
 wrap) CF="$CF -O2 -DNDEBUG"; HOOKS=${HOOKS:-hooks_wrap.cc}; LD="-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=pthread_create,--wrap=pthread_join,--wrap=clock_gettime";;
 asan) CF="$CF -O1 -DNDEBUG -fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero -fno-sanitize=nonnull-attribute -fno-sanitize-recover=undefined,float-cast-overflow,float-divide-by-zero -fno-omit-frame-pointer"; CXXF="$CXXF -fsanitize=address "; LD="-fsanitize=address,undefined";;
 vg) CF="$CF -O1 -DNDEBUG"; HOOKS=hooks_vg.cc;;
 tsan) CF="$CF -O1 -DNDEBUG -fsanitize=thread"; CXXF="$CXXF -fsanitize=thread"; LD="-fsanitize=thread";;
esac
HK=${HOOKS:-hooks_none.cc}
CF="$CF $EXTRA_CF"
objs=()
pids=()
for f in "$R"/src/core/*.c "$R"/src/explorers/*.c; do
  b=$(basename "$f" .c)
  [ "$b" = Debugger ] && continue
  gcc $CF $DEF $INC -c "$f" -o "$out/$b.o" & pids+=($!)
  objs+=("$out/$b.o")
done
g++ $CXXF $INC -I"$here/driver" -c "$here/driver/drive.cc" -o "$out/drive.oo" & pids+=($!)
g++ $CXXF $INC -I"$here/driver" -c "$here/driver/$HK" -o "$out/hooks.oo" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
g++ $LD $EXTRA_LD -o "$out/drive" "$out/drive.oo" "$out/hooks.oo" "${objs[@]}" -lgmpxx -lgmp -lm -lpthread
