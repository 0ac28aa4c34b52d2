#!/bin/sh
# build.sh OUTDIR: builds the harness with the library of /repo (TINY_REPO overrides the place)
set -e
R=${TINY_REPO:-/repo}/tiny
O=$1
H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O"
FLAGS="-std=gnu11 -g -O1 -fno-omit-frame-pointer -w -I$R/include -I$R/src"
SAN="-fsanitize=address"
WRAP="-Wl,--wrap=malloc,--wrap=realloc,--wrap=free,--wrap=calloc,--wrap=strdup"
for f in "$R"/src/*.c; do
    gcc $FLAGS $SAN -c "$f" -o "$O/$(basename "$f" .c).o" &
done
if ! gcc $FLAGS $SAN -c "$H/tinyh.c" -o "$O/tinyh.h.o" 2>"$O/tinyh.err"; then
    gcc $FLAGS $SAN -DNO_DETAIL -c "$H/tinyh.c" -o "$O/tinyh.h.o"
fi
wait
LIBS=""
for f in "$R"/src/*.c; do LIBS="$LIBS $O/$(basename "$f" .c).o"; done
gcc $SAN $WRAP -o "$O/tinyh.new" "$O/tinyh.h.o" $LIBS -lm
mv "$O/tinyh.new" "$O/tinyh"
