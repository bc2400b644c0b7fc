#!/bin/sh
# verifies that the tools are there and warms the go build cache
set -e
cd "$(dirname "$0")"
mkdir -p evidence
tmp=$(mktemp -d)
sh harness/build.sh "$tmp/vh"
java -version >/dev/null 2>&1
rm -rf "$tmp"
echo ready
