#!/usr/bin/env python3
"""development helper: plant.py <id> <prop> <file> <needs> <what>  with OLD/NEW text from files /tmp/old /tmp/new (or several
pairs /tmp/oldN /tmp/newN FILE);  writes seeded/<id>/patch.diff, meta.json"""
import sys, json, os, subprocess, tempfile, shutil
def plant(id, prop, edits, needs, what):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/t", "HEAD"])
    try:
        for f, a, b in edits:
            p = w + "/t/" + f
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.check_output(["git", "-C", w + "/t", "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/t"])
        os.rmdir(w)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
