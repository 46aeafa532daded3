#!/usr/bin/env python3
"""redteam.py FILE.py [NAME...] : FILE.py defines B = [(name, "C03 C13", [(file, old, new), ...]), ...]; run inside tools/inrepo.sh.
Applies each change to the (private) /repo, runs the named checks and prints which reported it."""
import sys, subprocess, runpy, re
B = runpy.run_path(sys.argv[1])["B"]
for name, props, edits in B:
    if len(sys.argv) > 2 and name not in sys.argv[2:]: continue
    ok = True
    for f, old, new in edits:
        p = "/repo/" + f; s = open(p, encoding="latin-1").read()
        if s.count(old) < 1: print("%-30s old text not found in %s" % (name, f)); ok = False; break
        if s.count(old) > 1: print("%-30s NOTE %d occurrences, first changed" % (name, s.count(old)))
        open(p, "w", encoding="latin-1").write(s.replace(old, new, 1))
    if ok:
        for c in props.split():
            r = subprocess.run(["python3", "/verif/checks/%s.py" % c], capture_output=True, text=True, cwd="/verif")
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            print("%-30s %s rc=%d %s %s" % (name, c, r.returncode, "caught" if r.returncode == 1 and v else "MISSED", re.sub(r"\s+", " ", r.stdout)[:160] if r.returncode not in (0, 1) else ""), flush=True)
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
