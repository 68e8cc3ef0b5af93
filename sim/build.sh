#!/bin/bash
# usage: build.sh <flavour> <outdir>   (asan | plain | threads)
# Builds the engine from /repo's working tree, out of tree, and links the simulator.
set -e
FL=$1; B=$2; HERE=$(cd "$(dirname "$0")" && pwd); REPO=${RATJS_REPO:-/repo}
unset O ARCH DEBUG CROSS_COMPILE CLANG M CFLAGS LIBS HOST_CFLAGS HOST_LIBS MAKEFLAGS
mkdir -p "$B"
NOF="-U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -w"
case $FL in
asan)  CCX="gcc -g1 -fsanitize=address -fno-omit-frame-pointer $NOF";;
plain) CCX="gcc -g1 $NOF";;
threads) mkdir -p "$B"; printf '#!/bin/bash\na=(); for x in "$@"; do [ "$x" = -O2 ] && x=-O1; a+=("$x"); done\nexec clang -fno-pie "${a[@]}"\n' > "$B/cc-o1"; chmod +x "$B/cc-o1"
         CCX="$B/cc-o1 -g1 -fsanitize=thread -Wno-implicit-function-declaration $NOF";;   # -O1: bytes accessed one by one in the source stay so
esac
( flock 9
if [ ! -f "$B/.ok" ]; then
  make -s -C "$REPO" O="$B" config > "$B/log" 2>&1
  make -s -C "$REPO" -j8 O="$B" CC="$CCX" "$B/libratjs.a" >> "$B/log" 2>&1 || { tail -40 "$B/log" >&2; exit 1; }
  touch "$B/.ok"
fi
( echo "static const unsigned char prelude_js[] = {"; od -An -v -tx1 "$HERE/prelude.js" | sed 's/ \([0-9a-f][0-9a-f]\)/0x\1,/g'; echo "}; static const unsigned prelude_js_len = sizeof prelude_js;" ) > "$B/prelude_inc.h"
W=""
for f in rjs_gc_add malloc realloc calloc free strdup ucnv_open_74 ucnv_close_74 gettimeofday clock_gettime time rand srand fopen fclose stat chmod mkdir rmdir unlink rename realpath getcwd getenv system isatty opendir readdir closedir; do W="$W -Wl,--wrap=$f"; done
INC="-I$REPO/include -I$B/include"
DT=""; m=$(nm -A "$B/libratjs.a" 2>/dev/null | sed -n 's/^[^:]*:\([^:]*\):.* T rjs_dtoa$/\1/p' | head -1)
LIBS=$(make -s -C "$REPO" O="$B" --eval='vpx:;@echo $(LIBS)' vpx | tail -1)
if [ $FL = threads ]; then
  W=""
  for f in rjs_gc_add malloc realloc calloc free strdup gettimeofday clock_gettime time rand srand sched_yield pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_once pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_unlock pthread_self; do W="$W -Wl,--wrap=$f"; done
  for s in simcore simthr simserv; do gcc -O1 -g1 -fno-pie -w -DSIM_THREADS $INC -I$B -c -o "$B/$s.o" "$HERE/$s.c" & done; wait
  for s in simcore simserv; do objcopy $(for f in malloc realloc calloc free strdup; do echo "--redefine-sym $f=__real_$f "; done) "$B/$s.o"; done
  if [ -n "$m" ]; then ( cd "$B" && ar x libratjs.a "$m" && mv "$m" sim_dtoa.o ); DT="$B/sim_dtoa.o"; objcopy --rename-section .text=text_dtoa --redefine-sym malloc=sim_dtoa_malloc --redefine-sym free=sim_dtoa_free --redefine-sym realloc=sim_dtoa_realloc "$DT"; fi
  gcc -no-pie -o "$B/ratsim" "$B"/simcore.o "$B"/simthr.o "$B"/simserv.o $DT "$B/libratjs.a" $W $LIBS
else
  for s in simcore simserv simfs simjs; do gcc -O1 -g1 $( [ $FL = asan ] && echo -fsanitize=address ) -w $INC -I$B -c -o "$B/$s.o" "$HERE/$s.c" & done
  gcc -O1 -g1 $( [ $FL = asan ] && echo -fsanitize=address ) $NOF $INC -Dmain=ratjs_main '-DMODULE_DIR="/sim/lib"' -c -o "$B/rjs_main.o" "$REPO/src/exe/rjs_main.c" &
  wait
  # the simulator's own objects call the real functions
  for s in simcore simserv simfs simjs; do
    objcopy $(for f in malloc realloc calloc free strdup ucnv_open_74 ucnv_close_74 gettimeofday time fopen fclose stat chmod mkdir rmdir unlink rename realpath getcwd getenv system opendir readdir closedir; do echo "--redefine-sym $f=__real_$f "; done) "$B/$s.o"
  done
  # the number conversion library keeps a process-wide block cache: count its blocks apart
  if [ -n "$m" ]; then
    ( cd "$B" && ar x libratjs.a "$m" && mv "$m" sim_dtoa.o ); DT="$B/sim_dtoa.o"
    objcopy --redefine-sym malloc=sim_dtoa_malloc --redefine-sym free=sim_dtoa_free --redefine-sym realloc=sim_dtoa_realloc "$DT"
  fi
  gcc $( [ $FL = asan ] && echo -fsanitize=address ) -o "$B/ratsim" "$B"/simcore.o "$B"/simserv.o "$B"/simfs.o "$B"/simjs.o "$B/rjs_main.o" $DT "$B/libratjs.a" $W $LIBS
fi
) 9> "$B/.lock"
