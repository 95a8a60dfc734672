#!/bin/bash
# Runs the loader of the current directory (/repo) on the files beside this
# script and compares what it delivers with expected.txt.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
flags="-std=gnu99 -g -w -I$here/shim/include -I$repo/include -I$repo/src $(xml2-config --cflags 2>/dev/null || echo -I/usr/include/libxml2)"
wrap="-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"
san=""; [ -e "$here/sanitize" ] && { san="-fsanitize=address,undefined -fno-sanitize-recover=undefined"; wrap=""; }
[ -e "$here/threads" ] && { san="-fsanitize=thread"; wrap=""; export TSAN_OPTIONS=exitcode=77; }
export ASAN_OPTIONS=detect_leaks=0:exitcode=77 LC_ALL=C.UTF-8
heap="$here/heap.c"; [ -n "$san" ] && { echo '#include <stdlib.h>
long liveBlocks = 0; int heapCounted = 0; void freeText(void *p) { free(p); }' >"$tmp/heap.c"; heap="$tmp/heap.c"; }
srcs=$(find "$repo/src" -name '*.c' | sort)
gcc $flags $san $wrap -o "$tmp/dump" "$here/${MAIN:-dump.c}" "$heap" $srcs "$here/shim/src/types.c" -lxml2 -lm || { echo "demo: build failed"; exit 2; }
cp "$here"/*.xml "$tmp/" 2>/dev/null
cd "$tmp" || exit 2
[ -e "$here/gen.py" ] && { python3 "$here/gen.py" || exit 2; }
: >"$tmp/out.txt"
while read -r line; do
    [ -z "$line" ] && continue
    echo "== $line" >>"$tmp/out.txt"
    timeout 60 "$tmp/dump" $line >>"$tmp/out.txt" 2>"$tmp/err.txt"
    echo "exit $?" >>"$tmp/out.txt"
done <"$here/cmds"
[ -n "$RECORD" ] && cp "$tmp/out.txt" "$RECORD"
if [ -e "$here/check.py" ]; then python3 "$here/check.py" "$tmp/out.txt"; exit $?; fi
diff "$here/expected.txt" "$tmp/out.txt"
