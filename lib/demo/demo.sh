#!/bin/bash
# Run with cwd at the root of the PDC tree: builds its client and server for the simulated installation (kit/) in a
# scratch directory and runs demo.cpp there under a number of message schedules. Exits 0 when the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
trap 'find "$t" -mindepth 1 -delete; rmdir "$t"' EXIT
chmod 755 "$t"
cp -r "$here/kit/." "$t/" && mkdir -p "$t/checks" "$t/evidence" "$t/replays" && cp "$here"/demo.cpp "$t/checks/" || exit 2
cp "$t/demo.hpp" "$t/checks/"
echo '{"DEMO":{"sim":true,"src":["demo.cpp"]}}' > "$t/checks/checks.json"
touch "$t/known_findings.txt"
export VERIF_REPO="$PWD" VERIF_BUILD="$t/build" VERIF_SEED=1 VERIF_TIER=quick VERIF_DIR="$t"
b="$(python3 "$t/lib/build.py" DEMO)" || exit 2
timeout 200 "$b"
