#!/bin/sh
# builds the program beside this file against the repository in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d)
repo=$(pwd)
{
  printf '{"Replace": {'
  sep=""
  for f in "$here"/*.go; do
    printf '%s"%s/zz_demo/%s": "%s"' "$sep" "$repo" "$(basename "$f")" "$f"
    sep=", "
  done
  printf '}}'
} > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo
if [ $? -ne 0 ]; then rm -rf "$tmp"; exit 3; fi
TMPDIR="$tmp" timeout 120 "$tmp/demo"
rc=$?
rm -rf "$tmp"
exit $rc
