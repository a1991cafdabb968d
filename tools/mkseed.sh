#!/bin/bash
# mkseed.sh ID "SOURCES" ["FLAGS" ["LIBS"]]: lays the demonstration bench into seeded/ID (demo.cpp, patch.diff and meta.json are written by hand).
d=/verif/seeded/$1
mkdir -p $d/lib/core
cp -r /verif/sim/stubs $d/lib/
cp /verif/sim/gen_msgs.py $d/lib/
cp /verif/tools/demo/sim.h $d/lib/core/sim.h
cp /verif/tools/demo/demo.h $d/lib/demo.h
sed -e "s|@SRC@|$2|; s|@FLAGS@|$3|; s|@LIBS@|$4|" /verif/tools/demo/demo.sh > $d/demo.sh
chmod +x $d/demo.sh
