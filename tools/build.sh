#!/bin/bash
# Builds the driver (and jpath) from $repo's current tree into the directory $1: build.sh OUTDIR [go build flags]
repo=${VERIF_REPO:-/repo}
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
out=$(realpath -m "$1"); shift
mkdir -p "$out"
here=$(realpath "$(dirname "$0")/../driver")
{
  echo '{"Replace": {'
  sep=""
  for f in "$here"/*.go; do
    printf '%s"'"$repo"'/cmd/zz_verif_driver/%s": "%s"' "$sep" "$(basename "$f")" "$f"; sep=$',\n'
  done
  echo '}}'
} > "$out/overlay.json"
cd $repo || exit 3
go build -overlay "$out/overlay.json" "$@" -o "$out/driver" ./cmd/zz_verif_driver || exit 3
go build -o "$out/jpath" ./cmd/jpath || exit 3
