#!/bin/bash
# Builds the extension from /repo's current working tree, outside /repo.
#   build_ext.sh OUTDIR            -> OUTDIR/asan/teds.so and OUTDIR/plain/teds.so
# Needs nothing that /repo's own (git-ignored) build leaves behind.
set -eu -o pipefail
out=$1
repo=${TEDS_REPO:-/repo}
mkdir -p "$out/inc" "$out/asan" "$out/plain"
echo '#define COMPILE_DL_TEDS 1' > "$out/inc/config.h"
echo '#define HAVE_STDBOOL_H 1' >> "$out/inc/config.h"
inc=$(php-config8.3 --includes)
common="-DHAVE_CONFIG_H -DCOMPILE_DL_TEDS=1 -DZEND_COMPILE_DL_EXT=1 -D_GNU_SOURCE -I$out/inc -I$repo $inc -fPIC -fvisibility=hidden -w -g1"
jobs=()
compile() { # variant flags file
  gcc $common $2 -c "$3" -o "$out/$1/$(basename "$3" .c).o"
}
export -f compile; export out common
{ for f in "$repo"/*.c; do
    printf '%s\0%s\0%s\0' asan "-O1 -fsanitize=address -fno-omit-frame-pointer" "$f"
    printf '%s\0%s\0%s\0' plain "-O2" "$f"
  done; } | xargs -0 -n3 -P8 bash -c 'compile "$0" "$1" "$2"'
gcc -shared -fsanitize=address -o "$out/asan/teds.so" "$out"/asan/*.o
gcc -shared -o "$out/plain/teds.so" "$out"/plain/*.o
gcc -shared -fPIC -O1 -w -o "$out/nodeep.so" "$(dirname "$0")/nodeep.c" -ldl
