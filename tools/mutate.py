#!/usr/bin/env python3
"""mutate.py N SEED FILE[:FUNC,FUNC..] ... -- Cxx ...   (run under tools/inrepo.sh)
plants N random small changes in the given files, runs the checks, prints the ones that survive"""
import tempfile, sys, re, random, subprocess, os, time, glob
a = sys.argv[1:]; k = a.index("--"); n, seed = int(a[0]), int(a[1]); files, checks = a[2:k], a[k+1:]
R = random.Random(seed)
os.environ.update(VERIF_CC="ccache gcc", CCACHE_DIR="/tmp/mut_ccache", CCACHE_NOHASHDIR="1")
os.environ.setdefault("VERIF_CACHE", "/tmp/mut_build.%d" % os.getpid())
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r'==', '!='), (r'!=', '=='), (r'<(?=[a-z])', '<='), (r'<=(?=[a-z0-9])', '<'),
       (r'(?<=[\w\])])\+(?=[\w(])', '-'), (r'(?<=[\w\])])-(?=[\w(])', '+'), (r' \+ ', ' - '), (r' - ', ' + '), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])2(?![\w.])', '1'), (r'\b3\b', '2'),
       (r'\bn1\b', 'n2'), (r'\bn2\b', 'n3'), (r'\bn3\b', 'n2'), (r'\bi\b', 'j'), (r'\bj\b', 'k'), (r'\bk\b', 'j'), (r'\*(?=[\w(])', '/'), (r'\+=', '-='), (r'\+=', '='), (r'-=', '+='),
       (r'\bif\((?!.*\{)', 'if(0 && '), (r'\bif\(', 'if(!('), ("DEL", "")]
SKIP = re.compile(r'^\s*(/\*|//|\*|#|\}|\{|$)|printf|errorexit|\bexit\(|AddPar|prdivider|timer_|assert|fflush')
def regions(f, funcs):
    L = open(f).read().split("\n")
    ok, cm, name = [], False, ""
    for i, l in enumerate(L):
        if re.match(r'^[A-Za-z_].*\(', l) and not l.rstrip().endswith(";"):
            m = re.search(r'(\w+)\s*\(', l); name = m.group(1) if m else name
        c = cm
        if '/*' in l and '*/' not in l.split('/*')[-1]: cm = True
        elif '*/' in l: cm = False
        if c or SKIP.search(l) or not l.startswith((" ", "\t")): continue
        if funcs and name not in funcs: continue
        if re.match(r'^\s+(const )?(int|double|char|tGrid|tBox|tVarList|FILE|struct|t[A-Z]\w+|intList|void|static)\b[^=]*;', l): continue
        ok.append((i, name))
    return L, ok
cand = []
for spec in files:
    f, _, fn = spec.partition(":")
    L, ok = regions(f, fn.split(",") if fn else None)
    for i, nm in ok:
        body = L[i].split("/*")[0].split("//")[0]
        for o in OPS:
            if o[0] == "DEL":
                if re.match(r'^\s+[\w\[\]\->.*(]+.*;\s*$', body) and not re.match(r'^\s+(return|break|continue|int|double|char|t[A-Z])\b', body) and body.count("(") == body.count(")"): cand.append((f, i, nm, None, None, None))
                continue
            for m in re.finditer(o[0], body):
                s = body[:m.start()] + o[1] + body[m.end():]
                if o[1] == 'if(!(' :
                    d = 0; e = None
                    for p in range(m.end()-1, len(body)):
                        d += (body[p] == "(") - (body[p] == ")")
                        if d == 0: e = p; break
                    if e is None: continue
                    s = body[:m.start()] + "if(!(" + body[m.end():e] + "))" + body[e+1:]
                cand.append((f, i, nm, m.start(), o, s))
R.shuffle(cand)
print("%d candidates" % len(cand), flush=True)
done = killed = 0
TMP = tempfile.mkdtemp(prefix="mutlane_"); os.chmod(TMP, 0o777); os.environ["TMPDIR"] = TMP; os.environ.setdefault("VERIF_CACHE", TMP + "/cache")
def run(c):
    t = time.time()
    p = subprocess.run(["timeout", "-k", "5", os.environ.get("MUT_TIMEOUT", "240"), "python3", "/verif/checks/%s.py" % c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd="/verif")
    o = p.stdout.decode(errors="replace")
    subprocess.run(["pkill", "-9", "-f", TMP + "/verif_"])
    return p.returncode, o, time.time()-t
used = {}
for f, i, nm, col, o, s in cand:
    if done >= n: break
    if used.get((f, nm), 0) >= max(2, 3*n//max(1, len({(c[0], c[2]) for c in cand}))): continue
    src = open(f).read(); L = src.split("\n"); old = L[i]
    L[i] = (";" if s is None else s)
    open(f, "w").write("\n".join(L))
    try:
        r = subprocess.run(["python3", "/verif/lib/sgbuild.py", "plain"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        alt = os.environ.get("MUT_ALT")
        if r.returncode: continue
        used[(f, nm)] = used.get((f, nm), 0)+1
        done += 1; hit = None
        for c in checks:
            rc, out, dt = run(c)
            if rc == 1 and "VIOLATION" in out: hit = c; break
            if rc not in (0, 1): hit = "%s(rc %d)" % (c, rc); break
            if rc == 1: hit = c + "(1, no violation)"; break
        if hit: killed += 1
        print("%s %s:%d %s\n   - %s\n   + %s" % ("killed by " + hit if hit else "SURVIVED", f.replace("/repo/src/", ""), i+1, nm, old.strip(), L[i].strip()) if (not hit or "(" in hit) else "killed %s %s:%d %s" % (hit, os.path.basename(f), i+1, nm), flush=True)
    finally:
        open(f, "w").write(src)
import shutil; shutil.rmtree(TMP, ignore_errors=True)
print("%d of %d killed" % (killed, done))
