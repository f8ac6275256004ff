#!/bin/bash
# The newer cargo keeps its downloads under another directory name than the one
# the repository's dependencies were fetched with, so hand it those as a
# directory source. Usage: vendor.sh LOCKFILE OUTDIR
lock="$1"; out="$2"
rm -rf "${out:?}"; mkdir -p "$out"
home="${CARGO_HOME:-$HOME/.cargo}"
awk -F'"' '/^name = /{n=$2} /^version = /{v=$2} /^checksum = /{print n, v, $2}' "$lock" | while read -r n v c; do
  for d in "$home"/registry/src/*/"$n-$v"; do
    if [ -d "$d" ]; then
      cp -rs "$d" "$out/$n-$v"
      printf '{"files":{},"package":"%s"}' "$c" > "$out/$n-$v/.cargo-checksum.json"
      break
    fi
  done
done
