#!/bin/bash
# development helper: fix.sh <property> "<message>" "<what failed>" files...   commits a repair in /repo and records it
set -e
prop=$1; msg=$2; what=$3; shift 3
git -C /repo reset -q
git -C /repo add "$@"
git -C /repo commit -qm "fix: $msg"
h=$(git -C /repo rev-parse --short HEAD)
echo "fixed: property=$prop $h $what" >> /verif/known_findings.txt
