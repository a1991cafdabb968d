#!/bin/bash
# Runs demo.py beside this file against the Python tools in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" timeout 120 python3 "$here/demo.py"
