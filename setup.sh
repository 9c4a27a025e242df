#!/bin/sh
# Everything needed is committed; check that the tools are there and that every specification parses.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
command -v java >/dev/null || { echo "java missing"; exit 1; }
test -x /opt/venv/bin/python || { echo "python of the code under test missing"; exit 1; }
exit 0
