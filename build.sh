#!/bin/bash
# Builds build/vh from /repo's working tree and this directory (cached by content hash).
ROOT=$(cd "$(dirname "$0")" && pwd)
REPO=${VH_REPO:-/repo}
B=$ROOT/build
mkdir -p "$B"
exec 9>"$B/.lock"; flock 9
CC=clang; CXX=clang++
DEFS='-DPACKAGE_NAME="libstrophe" -DHAVE_STDIO_H=1 -DHAVE_STDLIB_H=1 -DHAVE_STRING_H=1 -DHAVE_INTTYPES_H=1 -DHAVE_STDINT_H=1 -DHAVE_STRINGS_H=1 -DHAVE_SYS_STAT_H=1 -DHAVE_SYS_TYPES_H=1 -DHAVE_UNISTD_H=1 -DSTDC_HEADERS=1 -DHAVE_DLFCN_H=1 -DHAVE_CLOCK_GETTIME=1 -DHAVE_SNPRINTF=1 -DHAVE_VSNPRINTF=1 -DHAVE_VA_COPY=1 -DHAVE_GETRANDOM=1 -DHAVE_ZLIB=1 -DLIBXMPP_VERSION_MAJOR=0 -DLIBXMPP_VERSION_MINOR=14'
SAN="-fsanitize=address,bounds -fno-sanitize-recover=all -fno-omit-frame-pointer"
# undefined behaviour that only traps in the sanitizer but is harmless is not asked for
CF="-g -O1 $SAN -fexceptions -w -I$REPO -I$REPO/src -I$ROOT/src"
CXF="-g1 -O1 -std=c++17 $SAN -Wall -Wno-deprecated-declarations -Wno-unused-function -I$REPO -I$REPO/src -I$ROOT/src -I/usr/include/libxml2"
# the library's direct uses of the C allocator, and the allocators it gives to zlib and expat, go by our wrappers (life.cpp)
RE=""
for y in malloc calloc realloc free strdup strndup asprintf vasprintf deflateInit_ deflateInit2_ inflateInit_ inflateInit2_ XML_ParserCreate XML_ParserCreateNS XML_ParserCreate_MM; do RE="$RE --redefine-sym $y=vhx_$y"; done
obj() { # source, out-prefix, command...
    :
}
pids=(); fails=0
compile() { # src kind
    local src=$1 kind=$2 h o
    if [ "$kind" = c ]; then
        h=$( { echo "$CC $CF $DEFS $RE"; cat "$src" "$REPO"/src/*.h "$REPO"/strophe.h "$ROOT"/src/shim.h; [ "$(basename $src)" = shim.c ] || true; } | sha256sum | cut -c1-24)
    else
        h=$( { echo "$CXX $CXF"; cat "$src" "$ROOT"/src/*.h "$REPO"/strophe.h; } | sha256sum | cut -c1-24)
    fi
    o=$B/$(basename "$src").$h.o
    echo "$o" >> "$B/objs.$$"
    [ -f "$o" ] && return 0
    (
        # write it under a temporary name: an interrupted build leaves no half object
        if [ "$kind" = c ]; then eval "$CC $CF $DEFS -c '$src' -o '$o.tmp.$$'" && { [ "${src#$ROOT/}" != "$src" ] || objcopy $RE "$o.tmp.$$"; }; else eval "$CXX $CXF -c '$src' -o '$o.tmp.$$'"; fi && mv "$o.tmp.$$" "$o"
    ) &
    pids+=($!)
}
rm -f "$B"/objs.*
for f in "$ROOT"/src/*.cpp; do compile "$f" cxx; done
for f in "$REPO"/src/*.c; do
    case $(basename "$f") in
    parser_libxml2.c|tls_gnutls.c|tls_schannel.c|tls_dummy.c|compression_dummy.c) continue;;
    esac
    compile "$f" c
done
compile "$ROOT/src/shim.c" c
for p in "${pids[@]}"; do wait "$p" || fails=1; done
if [ $fails != 0 ]; then echo "build of the check failed" >&2; rm -f "$B/objs.$$"; exit 2; fi
h=$(sha256sum < "$B/objs.$$" | cut -c1-24)
if [ ! -x "$B/vh.$h" ]; then
    $CXX $SAN -rdynamic -o "$B/vh.$h.tmp" $(cat "$B/objs.$$") -lssl -lcrypto -lexpat -lz -lresolv -lxml2 -ldl || { echo "link failed" >&2; exit 2; }
    mv "$B/vh.$h.tmp" "$B/vh.$h"
fi
# forget what is not part of this build and older than an hour
find "$B" -maxdepth 1 -name '*.o' -mmin +60 2>/dev/null | grep -v -F -f "$B/objs.$$" | xargs -r rm -f
find "$B" -maxdepth 1 -name 'vh.*' ! -name "vh.$h" -mmin +60 -delete 2>/dev/null
touch "$B/vh.$h"
rm -f "$B/objs.$$"
ln -sfn "vh.$h" "$B/vh"
echo "$B/vh.$h" > "$B/current"
