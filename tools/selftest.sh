#!/bin/bash
# tests the simulated MPI itself, apart from the library
set -e
d=$(mktemp -d /tmp/simtest.XXXXXX)
trap 'rm -rf "$d"' EXIT
here=$(cd "$(dirname "$0")/.." && pwd)
src=${VERIF_REPO:-/repo}/src
printf '#define HAVE_BYTESWAP_H\n#define KVTREE_FILE_LOCK_USE_FLOCK\n' > "$d/config.h"
for f in kvtree kvtree_io kvtree_helpers kvtree_util kvtree_err; do
  gcc -w -g -I"$d" -I"$src" -c "$src/$f.c" -o "$d/$f.o"
done
g++ -std=c++17 -g -fsanitize=address,undefined -DKVTREE_VERIF -I"$here/harness" -I"$here/harness/mpisim" -I"$src" -I"$d" \
  "$here"/harness/mpisim/{selftest,sim}.cpp "$here"/harness/{vh,wrap}.cpp "$d"/*.o -lz -lpthread -o "$d/t"
timeout 100 "$d/t"
