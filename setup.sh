#!/bin/sh
# Nothing to compile: TLC runs the specifications, the drivers are Python.
# This only verifies that the tools are there and every module parses.
set -e
cd "$(dirname "$0")/spec"
command -v tlc >/dev/null
command -v tla-sany >/dev/null
test -x /opt/venv/bin/python
for f in *.tla; do
  out=$(tla-sany "$f" 2>&1) || { echo "$out" | tail -20; exit 1; }
done
echo "setup ok"
