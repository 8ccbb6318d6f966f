#!/bin/bash
# development helper: simkit.sh <seed id>...  puts the files a simulated demonstration needs into seeded/<id>
for id in "$@"; do
  d=/verif/seeded/$id; mkdir -p "$d/kit/lib"
  cp /verif/lib/demo/demo.sh "$d/"; chmod +x "$d/demo.sh"
  cp /verif/lib/demo/demo.hpp "$d/kit/"
  cp /verif/lib/{build.py,pbt.hpp,pbt.cpp} "$d/kit/lib/"
  cp -r /verif/sim "$d/kit/"
  sed -i "s,/verif,.,g" "$d"/kit/lib/* "$d"/kit/sim/*.cpp "$d"/kit/sim/include/*.h
done
