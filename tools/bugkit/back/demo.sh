#!/bin/bash
# Loads the files beside this script with the loader and backend of the current directory (/repo)
# into a stand-in server and compares what the server holds with expected.txt.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
wrap="-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"
san=""; [ -e "$here/sanitize" ] && { san="-fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=undefined"; wrap=""; }
[ -e "$here/threads" ] && { san="-fsanitize=thread"; wrap=""; export TSAN_OPTIONS=exitcode=77; }
inc="-I$here/shim/include -I$repo/include -I$repo/src -I$repo/backends/open62541/include -I$repo/backends/open62541/src $(xml2-config --cflags 2>/dev/null || echo -I/usr/include/libxml2)"
export ASAN_OPTIONS=detect_leaks=0:exitcode=77 LC_ALL=C.UTF-8
heap="$here/heap.c"; [ -n "$san" ] && { echo '#include <stdlib.h>
long liveBlocks = 0; int heapCounted = 0; void freeText(void *p) { free(p); }' >"$tmp/heap.c"; heap="$tmp/heap.c"; }
n=0; objs=""
for f in $(find "$repo/src" "$repo/backends/open62541/src" -name '*.c' | sort) "$heap" "$here/shim/src/types.c"; do
    n=$((n + 1)); objs="$objs $tmp/$n.o"
    gcc -std=gnu11 -g -w -fexceptions -DUSE_CLEANUP_CUSTOM_DATATYPES=1 $san $inc -c "$f" -o "$tmp/$n.o" || { echo "demo: build failed"; exit 2; }
done
g++ -std=c++17 -g -w $san $wrap $inc -o "$tmp/srv" "$here/srv.cpp" "$here/shim/src/server.cpp" $objs -lxml2 -lm || { echo "demo: build failed"; exit 2; }
cp "$here"/*.xml "$tmp/" 2>/dev/null
cd "$tmp" || exit 2
[ -e "$here/gen.py" ] && { python3 "$here/gen.py" || exit 2; }
: >"$tmp/out.txt"
while read -r line; do
    [ -z "$line" ] && continue
    echo "== $line" >>"$tmp/out.txt"
    timeout 60 "$tmp/srv" $line >>"$tmp/out.txt" 2>"$tmp/err.txt"
    echo "exit $?" >>"$tmp/out.txt"
done <"$here/cmds"
[ -n "$RECORD" ] && cp "$tmp/out.txt" "$RECORD"
if [ -e "$here/check.py" ]; then python3 "$here/check.py" "$tmp/out.txt"; exit $?; fi
diff "$here/expected.txt" "$tmp/out.txt"
