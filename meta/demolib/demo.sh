#!/bin/bash
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
PY=python3; [ -x /opt/veriftools/pyvenv/bin/python ] && PY=/opt/veriftools/pyvenv/bin/python
export PYTHONDONTWRITEBYTECODE=1
"$PY" "$here/demo.py" "$tmp" "$repo"
