#!/bin/bash
# check.sh <property id>: exit 0 held, exit 1 with a VIOLATION line
cd "$(dirname "$0")" || exit 2
exec python3-vt govc/runner.py "$1"
