#!/bin/bash
# Builds demo.cpp beside this file against the sources in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
python3 -B "$here/lib/gen_msgs.py" "$repo" "$out/gen" >/dev/null
inc="-I$here/lib -I$here/lib/stubs -I$out/gen"
for p in controller_manager controller_interface hardware_interface combined_robot_hw joint_limits_interface transmission_interface; do inc="$inc -I$repo/$p/include"; done
src="@SRC@"
abs=""
for s in $src; do abs="$abs $repo/$s"; done
g++ -std=c++17 -O1 -g -w @FLAGS@ $inc "$here/demo.cpp" "$here/lib/stubs/simros.cpp" $abs -o "$out/demo" -lpthread @LIBS@ || { echo "demo does not build"; exit 3; }
cd "$out"
timeout 120 ./demo
