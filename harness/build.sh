#!/bin/sh
# builds the harness from the current working tree of /repo: build.sh OUTPUT
set -e
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
overlay=$(mktemp)
python3 - "$here" > "$overlay" <<'P'
import glob, json, os, sys
here = sys.argv[1]
print(json.dumps({"Replace": {"/repo/zz_verif_harness/" + os.path.basename(f): f for f in glob.glob(here + "/*.go")}}))
P
cd /repo
go build -overlay "$overlay" -o "$1" ./zz_verif_harness
rm -f "$overlay"
