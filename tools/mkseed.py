#!/usr/bin/env python3
"""mkseed.py ID PROP FILE 'needs' 'what' : makes /verif/seeded/ID from OLD/NEW text in /tmp/old /tmp/new and a demo.c from stdin"""
import sys, os, subprocess, json, shutil
def make(id, prop, edits, needs, what, demo, demo_sh=None):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == ""
    for f, old, new in edits:
        p = "/repo/" + f
        s = open(p, encoding="latin-1").read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w", encoding="latin-1").write(s.replace(old, new))
    open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout)
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
    T = "/verif/tools/demo_template/"
    if demo_sh: open(d + "/demo.sh", "w").write(demo_sh)
    else: shutil.copy(T + "demo.sh", d)
    if demo is not None:
        open(d + "/demo.c", "w").write(demo)
        shutil.copy(T + "demo.h", d)
