#!/bin/bash
# Builds /repo with AddressSanitizer in a scratch directory and runs the script beside this file in a small host.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
make -s -C . O="$T/b" config >/dev/null 2>&1 && make -s -C . -j8 O="$T/b" CC="gcc -g1 -fsanitize=address -w" "$T/b/libratjs.a" >/dev/null 2>&1 || { echo "build failed"; exit 2; }
L=$(make -s -C . O="$T/b" --eval='vpx:;@echo $(LIBS)' vpx | tail -1)
gcc -g1 -fsanitize=address -w -Iinclude -I"$T/b/include" -o "$T/host" "$D/hostt.c" "$T/b/libratjs.a" $L || exit 2
ASAN_OPTIONS=detect_leaks=${LEAKS:-0} timeout 120 "$T/host" "$D/demo.js" $ARGS > "$T/out" 2> "$T/err"; rc=$?
if [ $rc -ne 0 ]; then echo "exit code $rc"; head -20 "$T/err"; tail -5 "$T/out"; exit 1; fi
diff "$D/expect.txt" "$T/out" || { echo "unexpected output"; exit 1; }
echo ok
