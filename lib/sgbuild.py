"""Build /repo's current working tree (never /repo itself: a scratch copy).

build(variant) -> directory with  objs/*.o  (main renamed to sgrid_real_main),
src/ (headers), and exe/sgrid (the program).  The result depends only on the
contents of /repo/src, /repo/Makefile* and on the variant; it is cached under
$VERIF_CACHE (default: a per-user directory in the system temp dir), keyed by a
hash of exactly those inputs, and rebuilt when any of them changes.
"""
import hashlib, os, shutil, subprocess, sys, tempfile, time, fcntl, glob

REPO = os.environ.get("VERIF_REPO", "/repo")

MAIN = """ADMvars ModeComputer s2kit GridIterators LinAlg Poisson3 Poisson2 Poisson BSSN
Z4secondO SingleBH TestID TestDerivs ConvTest ScalarWave ScalarOnKerr ScalarOnKerr/DV_CircSchwSource""".split()
ALT = """ModeComputer ADMvars s2kit testwave ScalarOnKerr ScalarOnKerr/DV_CircSchwSource2
PN_CircularOrbit_GWs NumericUtils""".split()
UTIL = {"s2kit", "GridIterators", "LinAlg", "NumericUtils"}

SPECIALLIBS = ("-lspqr -lcholmod -lumfpack -lamd -lfftw3 -llapack -lblas "
               "-lgsl -lgslcblas").split()
SPECIALINCS = ["-I/usr/include/suitesparse"]
DEFS = ("-DNONICOFUNCS -DUMFPACK -DSUITESPARSEQR -DLAPACK -DCBLAS -DFFTW3 -DGSL").split()

VARIANTS = {
    # as the repository's own build configures it
    "plain": dict(o="-O2 -g1 -fopenmp -w", lv="-DLEVEL6_Pragmas -DTOPLEVEL_Pragmas", mods=MAIN),
    "plainalt": dict(o="-O2 -g1 -fopenmp -w", lv="-DLEVEL6_Pragmas -DTOPLEVEL_Pragmas", mods=ALT),
    # memory errors become crashes
    "asan": dict(o="-O1 -g1 -fopenmp -w -fsanitize=address -fno-omit-frame-pointer",
                 lv="-DLEVEL6_Pragmas -DTOPLEVEL_Pragmas", mods=MAIN),
    "asanalt": dict(o="-O1 -g1 -fopenmp -w -fsanitize=address -fno-omit-frame-pointer",
                    lv="-DLEVEL6_Pragmas -DTOPLEVEL_Pragmas", mods=ALT),
    # every memory access is a call into our own scheduler; all OpenMP levels on
    "omp": dict(o="-O1 -g1 -fopenmp -w -fsanitize=thread",
                lv="-DLEVEL2_Pragmas -DLEVEL3_Pragmas -DLEVEL4_Pragmas -DLEVEL6_Pragmas -DTOPLEVEL_Pragmas",
                mods=MAIN, nolink=True),
}


def _tree_hash():
    h = hashlib.sha256()
    files = []
    for top in ("src",):
        for d, dn, fn in os.walk(os.path.join(REPO, top)):
            dn.sort()
            for f in sorted(fn):
                files.append(os.path.join(d, f))
    files += sorted(glob.glob(os.path.join(REPO, "Makefile*")))
    for f in files:
        if "sgrid_automatic_" in f:
            continue
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        try:
            with open(f, "rb") as fp:
                h.update(hashlib.sha256(fp.read()).digest())
        except OSError:
            pass
    return h.hexdigest()[:24]


def cache_root():
    r = os.environ.get("VERIF_CACHE")
    if not r:
        r = os.path.join(tempfile.gettempdir(), "verif_build_%d" % os.getuid())
    os.makedirs(r, exist_ok=True)
    return r


def _prune(root, keep):
    ds = [d for d in glob.glob(os.path.join(root, "*")) if os.path.isdir(d) and d != keep]
    ds.sort(key=lambda d: os.path.getmtime(d), reverse=True)
    for d in ds[10:]:
        shutil.rmtree(d, ignore_errors=True)


def build(variant, log=True):
    v = VARIANTS[variant]
    with open(os.path.abspath(__file__), "rb") as fp:
        me = hashlib.sha256(fp.read()).hexdigest()[:8]
    key = "%s-%s-%s" % (variant, _tree_hash(), me)
    root = cache_root()
    dest = os.path.join(root, key)
    lock = open(os.path.join(root, key + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(dest, "OK")):
            os.utime(dest)
            return dest
        t0 = time.time()
        tmp = tempfile.mkdtemp(prefix="b_", dir=root)
        t = os.path.join(tmp, "sgrid")
        os.makedirs(os.path.join(t, "exe"))
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(t, "src"), symlinks=True)
        for f in glob.glob(os.path.join(REPO, "Makefile*")):
            shutil.copy2(f, t)
        for f in glob.glob(os.path.join(t, "src/main/main/sgrid_automatic_*")):
            os.remove(f)
        for d, _, fn in os.walk(os.path.join(t, "src")):
            for f in fn:
                if f.endswith(".m"):
                    os.utime(os.path.join(d, f), (946684800, 946684800))
        with open(os.path.join(t, "MyConfig"), "w") as fp:
            for m in v["mods"]:
                fp.write("libpaths += src/%s/%s\n" % ("utility" if m in UTIL else "physics", m))
            fp.write("EXEC = sgrid\nEXECDIR = $(TOP)/exe\nCC = %s\nCXX = g++\n" % os.environ.get("VERIF_CC", "gcc"))
            fp.write("CLINKER = %s\n" % ("true" if v.get("nolink") else "g++"))
            fp.write("OFLAGS = %s\n" % v["o"])
            fp.write("DFLAGS += %s %s\n" % (" ".join(DEFS), v["lv"]))
            fp.write("SPECIALINCS += %s\nSPECIALLIBS += %s\n" % (" ".join(SPECIALINCS), " ".join(SPECIALLIBS)))
        lg = os.path.join(tmp, "build.log")
        with open(lg, "w") as fp:
            rc = subprocess.call(["make", "-C", t, "-j%d" % (os.cpu_count() or 4),
                                  "SHELL=/bin/bash", ".SHELLFLAGS=-ec"], stdout=fp, stderr=subprocess.STDOUT,
                                 env=dict(os.environ, CCACHE_BASEDIR=t))
        exe = os.path.join(t, "exe/sgrid")
        if rc != 0 or (not v.get("nolink") and not os.path.exists(exe)):
            sys.stderr.write("".join(open(lg).readlines()[-40:]))
            raise SystemExit("ERROR: building /repo (%s) failed, see %s" % (variant, lg))
        out = os.path.join(tmp, "out")
        os.makedirs(os.path.join(out, "objs"))
        for d in sorted(glob.glob(os.path.join(t, "lib/obj/*"))):
            for o in sorted(glob.glob(os.path.join(d, "*.o"))):
                to = os.path.join(out, "objs", os.path.basename(d) + "__" + os.path.basename(o))
                shutil.copy2(o, to)
                if os.path.basename(d) == "main" and os.path.basename(o) == "main.o":
                    subprocess.check_call(["objcopy", "--redefine-sym", "main=sgrid_real_main", to])
        shutil.copytree(os.path.join(t, "src"), os.path.join(out, "src"), symlinks=True,
                        ignore=shutil.ignore_patterns("*.m", "*.nb", "*.par"))
        for f in glob.glob(os.path.join(out, "src/main/main/sgrid_automatic_*")):
            txt = open(f).read()
            open(f, "w").write(txt.replace(t + "/", dest + "/"))
        if os.path.exists(exe):
            os.makedirs(os.path.join(out, "exe"))
            shutil.copy2(exe, os.path.join(out, "exe/sgrid"))
        open(os.path.join(out, "OK"), "w").write("%.1f s\n" % (time.time() - t0))
        if os.path.exists(dest):
            shutil.rmtree(dest)
        os.rename(out, dest)
        shutil.rmtree(tmp, ignore_errors=True)
        _prune(root, dest)
        if log:
            print("built %s from %s in %.1f s" % (variant, REPO, time.time() - t0), flush=True)
        return dest
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def link(variant, harness_c, out, extra=(), cflags=(), exclude=()):
    """compile /verif/harness/<harness_c> and link it with all objects of the tree"""
    d = build(variant)
    v = VARIANTS[variant]
    objs = [o for o in sorted(glob.glob(os.path.join(d, "objs/*.o")))
            if os.path.basename(o) not in exclude]
    srcs = [harness_c] if isinstance(harness_c, str) else list(harness_c)
    hf = [f for f in v["o"].split() if f != "-w"]
    if v.get("nolink"):   # the harness itself is the OpenMP and the tsan runtime
        hf = [f for f in hf if f not in ("-fopenmp", "-fsanitize=thread")] + ["-no-pie", "-rdynamic"]
    inc = ["-I" + os.path.join(d, "src/main/main"), "-I/verif/harness".replace("/verif", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))] + SPECIALINCS
    hobjs = []
    procs = []
    for s in srcs:
        o = out + "." + os.path.basename(s) + ".o"
        cmd = ["gcc"] + hf + ["-w"] + DEFS + v["lv"].split() + inc + list(cflags) + ["-c", s, "-o", o]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), cmd))
        hobjs.append(o)
    for p, cmd in procs:
        o, _ = p.communicate()
        if p.returncode:
            sys.stderr.write(o.decode(errors="replace"))
            raise SystemExit("ERROR: harness does not compile: " + " ".join(cmd))
    cmd = ["g++"] + hf + ["-o", out] + hobjs + objs + list(extra) + SPECIALLIBS + ["-lm", "-ldl", "-lpthread"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write(p.stdout.decode(errors="replace")[-6000:])
        raise SystemExit("ERROR: harness does not link: " + out)
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain", "asan"]:
        print(v, build(v))
