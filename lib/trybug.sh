#!/bin/bash
# development helper: trybug.sh <seed id>...  applies each planted change to a scratch copy of /repo, builds, runs the
# repository's tests' sources through the ordinary build there, runs the demo with and without, and the property's check
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=/tmp/try.$id.$$
  cp -a /repo "$w"
  (cd "$w" && timeout 300 bash "$d/demo.sh" >/tmp/try.$id.0 2>&1); a=$?
  git -C "$w" apply "$d/patch.diff" || { echo "$id: PATCH FAILS"; continue; }
  (cd "$w" && timeout 300 bash "$d/demo.sh" >/tmp/try.$id.1 2>&1); b=$?
  VERIF_REPO="$w" VERIF_BUILD="$w/vb" /verif/check "$prop" >/tmp/try.$id.2 2>&1; k=$?
  echo "$id ($prop): demo clean=$a patched=$b; check exit=$k $(grep -c ^VIOLATION /tmp/try.$id.2)"
  python3 - "$w" <<'P'
import shutil,sys; shutil.rmtree(sys.argv[1])
P
done
